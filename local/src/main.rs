//! Property checks for the local (non-remote) part of kameo and for kameo_actors.
//! `local <id>` runs one property's checks, `local replay <file>` re-executes a saved case.

mod hub;
mod lab;
mod forwards;
mod replies;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c28;
mod c29;
mod c30;

use pbt::Session;

fn run(id: &str, s: &mut Session) -> bool {
    match id {
        "C01" => c01::run(s),
        "C02" => c02::run(s),
        "C03" => c03::run(s),
        "C04" => c04::run(s),
        "C05" => c05::run(s),
        "C06" => c06::run(s),
        "C07" => c07::run(s),
        "C08" => c08::run(s),
        "C09" => c09::run(s),
        "C10" => c10::run(s),
        "C11" => c11::run(s),
        "C12" => c12::run(s),
        "C13" => c13::run(s),
        "C14" => c14::run(s),
        "C15" => c15::run(s),
        "C16" => c16::run(s),
        "C17" => c17::run(s),
        "C18" => c18::run(s),
        "C19" => c19::run(s),
        "C20" => c20::run(s),
        "C21" => c21::run(s),
        "C22" => c22::run(s),
        "C23" => c23::run(s),
        "C24" => c24::run(s),
        "C28" => c28::run(s),
        "C29" => c29::run(s),
        "C30" => c30::run(s),
        _ => return false,
    }
    true
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (id, mut s) = match args.get(1).map(String::as_str) {
        Some("replay") => {
            let s = Session::replay(&args[2]).expect("replay file");
            (s.id().to_string(), s)
        }
        Some(id) => (id.to_string(), Session::new(id)),
        None => {
            eprintln!("usage: local <id> | local replay <file>");
            std::process::exit(2);
        }
    };
    if !run(&id, &mut s) {
        eprintln!("no property {id} here");
        std::process::exit(2);
    }
    std::process::exit(s.finish());
}
