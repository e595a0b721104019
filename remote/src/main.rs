//! Property checks for the remote part of kameo, over real nodes (processes) connected by QUIC on loopback.
//! `remote <id>` runs one property's checks, `remote replay <file>` re-executes a saved case.

mod errors;
mod ids;
mod node;
mod proto;
mod puppet;
mod c25;
mod c26;
mod c27;
mod world;


use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

use pbt::Session;

fn run(id: &str, s: &mut Session) -> bool {
    match id {
        "C17" => ids::run(s),
        "C18" => errors::run(s),
        "C25" => c25::run(s),
        "C26" => c26::run(s),
        "C27" => c27::run(s),
        _ => return false,
    }
    true
}

/// A network of its own with nothing but loopback: nodes of other worlds would be discovered by multicast otherwise.
/// Called before there are other threads.
fn isolate() -> bool {
    unsafe {
        let (uid, gid) = (libc::getuid(), libc::getgid());
        if libc::unshare(libc::CLONE_NEWUSER | libc::CLONE_NEWNET) != 0 {
            return false;
        }
        let _ = std::fs::write("/proc/self/setgroups", "deny");
        let _ = std::fs::write("/proc/self/uid_map", format!("0 {uid} 1"));
        let _ = std::fs::write("/proc/self/gid_map", format!("0 {gid} 1"));
        let s = libc::socket(libc::AF_INET, libc::SOCK_DGRAM, 0);
        let mut r: libc::ifreq = std::mem::zeroed();
        r.ifr_name[0] = b'l' as libc::c_char;
        r.ifr_name[1] = b'o' as libc::c_char;
        if s < 0 || libc::ioctl(s, libc::SIOCGIFFLAGS, &mut r) != 0 {
            return false;
        }
        r.ifr_ifru.ifru_flags |= (libc::IFF_UP | libc::IFF_RUNNING) as libc::c_short;
        let ok = libc::ioctl(s, libc::SIOCSIFFLAGS, &r) == 0;
        libc::close(s);
        ok
    }
}

/// How many worlds there can be at a time.
fn shards() -> u64 {
    if ISOLATED.load(Relaxed) { pbt::SHARDS } else { 1 }
}
static ISOLATED: AtomicBool = AtomicBool::new(false);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).is_some_and(|a| a != "node") {
        // in a process of its own: if it fails halfway, nothing is lost
        let probe = args.get(1).is_some_and(|a| a == "isolate");
        if probe {
            std::process::exit(!isolate() as i32);
        }
        let ok = std::env::var_os("VERIF_SHARED_NET").is_none() && std::env::current_exe()
            .and_then(|e| std::process::Command::new(e).arg("isolate").status())
            .is_ok_and(|s| s.success());
        ISOLATED.store(ok && isolate(), Relaxed);
        if !ISOLATED.load(Relaxed) {
            eprintln!("no network of its own: one world at a time");
        }
    }
    let (id, mut s) = match args.get(1).map(String::as_str) {
        Some("node") => return node::main(&args[2]),
        Some("replay") => {
            let s = Session::replay(&args[2]).expect("replay file");
            (s.id().to_string(), s)
        }
        Some(id) => (id.to_string(), Session::new(id)),
        None => {
            eprintln!("usage: remote <id> | remote replay <file>");
            std::process::exit(2);
        }
    };
    if !run(&id, &mut s) {
        eprintln!("no property {id} here");
        std::process::exit(2);
    }
    std::process::exit(s.finish());
}
