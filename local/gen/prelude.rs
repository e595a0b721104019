// Prelude of the generated programs of C24 (not part of the harness crate itself).
#![allow(warnings)]

mod prelude {
    pub use kameo::{
        actor::{ActorRef, PreparedActor},
        Actor,
        error::{ActorStopReason, SendError},
        mailbox,
        message::{Context, Message},
        messages, Reply,
    };
    pub use std::{
        collections::BTreeMap,
        fmt::Debug,
        sync::{
            atomic::{AtomicU64, Ordering},
            Arc, Mutex,
        },
    };

    pub struct Rng(pub u64);
    impl Rng {
        pub fn next(&mut self) -> u64 {
            self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        }
        pub fn below(&mut self, n: u64) -> u64 {
            self.next() % n
        }
    }

    pub trait Val: Clone + Debug + Send + Sync + 'static {
        fn gen(r: &mut Rng) -> Self;
        fn show(&self) -> String {
            format!("{self:?}")
        }
        fn of(n: u64) -> Self {
            Self::gen(&mut Rng(n))
        }
    }
    macro_rules! ints { ($($t:ty),*) => { $(impl Val for $t {
        fn gen(r: &mut Rng) -> Self {
            match r.below(4) { 0 => 0, 1 => <$t>::MAX, 2 => <$t>::MIN, _ => r.next() as $t }
        }
    })* } }
    ints!(i32, u8, u16, u64, i64, u32);
    impl Val for () {
        fn gen(_: &mut Rng) {}
    }
    impl Val for bool {
        fn gen(r: &mut Rng) -> Self {
            r.below(2) == 0
        }
    }
    impl Val for char {
        fn gen(r: &mut Rng) -> Self {
            ['a', '\0', 'ß', '中', '🦀'][r.below(5) as usize]
        }
    }
    impl Val for String {
        fn gen(r: &mut Rng) -> Self {
            (0..r.below(6)).map(|_| char::gen(r)).collect()
        }
    }
    impl<T: Val> Val for Vec<T> {
        fn gen(r: &mut Rng) -> Self {
            (0..r.below(4)).map(|_| T::gen(r)).collect()
        }
    }
    impl<T: Val> Val for Option<T> {
        fn gen(r: &mut Rng) -> Self {
            (r.below(3) > 0).then(|| T::gen(r))
        }
    }
    impl<T: Val> Val for Box<T> {
        fn gen(r: &mut Rng) -> Self {
            Box::new(T::gen(r))
        }
    }
    impl<A: Val, B: Val> Val for (A, B) {
        fn gen(r: &mut Rng) -> Self {
            (A::gen(r), B::gen(r))
        }
    }
    impl<A: Val, B: Val, C: Val> Val for (A, B, C) {
        fn gen(r: &mut Rng) -> Self {
            (A::gen(r), B::gen(r), C::gen(r))
        }
    }
    impl<T: Val, const N: usize> Val for [T; N] {
        fn gen(r: &mut Rng) -> Self {
            std::array::from_fn(|_| T::gen(r))
        }
    }
    impl<T: Val> Val for BTreeMap<u8, T> {
        fn gen(r: &mut Rng) -> Self {
            (0..r.below(4)).map(|_| (u8::gen(r), T::gen(r))).collect()
        }
    }
    fn double(n: i32) -> i32 {
        n.wrapping_mul(2)
    }
    fn negate(n: i32) -> i32 {
        n.wrapping_neg()
    }
    impl Val for fn(i32) -> i32 {
        fn gen(r: &mut Rng) -> Self {
            if r.below(2) == 0 { double } else { negate }
        }
        fn show(&self) -> String {
            format!("f(7)={}", self(7))
        }
    }

    pub trait Show {
        fn show_all(&self) -> String;
    }
    impl<T: Val> Show for T {
        fn show_all(&self) -> String {
            self.show()
        }
    }
    #[derive(Clone, Debug)]
    pub struct Fault<T>(pub T);

    pub fn answer<T: Show, M, E: Debug>(r: Result<T, SendError<M, E>>) -> String {
        match r {
            Ok(v) => format!("ok {}", v.show_all()),
            Err(SendError::HandlerError(e)) => format!("err {e:?}"),
            Err(SendError::ActorNotRunning(_)) => "not running".into(),
            Err(SendError::ActorStopped) => "stopped".into(),
            Err(SendError::MailboxFull(_)) => "full".into(),
            Err(SendError::Timeout(_)) => "timeout".into(),
        }
    }

    /// What happened: answers, log, number, how it ended.
    #[derive(Clone, Debug, PartialEq, Default)]
    pub struct Trace {
        pub name: String,
        pub answers: Vec<String>,
        pub log: Vec<String>,
        pub n: u64,
        pub end: String,
    }

    pub fn end_of(r: &ActorStopReason) -> String {
        match r {
            ActorStopReason::Panicked(e) => format!("panicked {e:?}"),
            r => format!("{r:?}"),
        }
    }

    /// The first difference.
    pub fn differ(what: &str, a: &Trace, b: &Trace) -> Result<(), String> {
        if a == b {
            return Ok(());
        }
        let at = a.answers.iter().zip(&b.answers).position(|(x, y)| x != y);
        Err(format!("{what}: answer {at:?} differs, or the rest: {a:?} instead of {b:?}"))
    }

    #[macro_export]
    macro_rules! drive {
        ($a:expr, $mode:expr, $m:expr) => {
            match $mode {
                0 => answer($a.ask($m).await),
                1 => match $a.ask($m).enqueue().await {
                    Ok(p) => answer(p.await),
                    Err(_) => "refused".to_string(),
                },
                2 => answer($a.ask($m).try_send().await),
                3 => match $a.tell($m).await {
                    Ok(()) => "told".to_string(),
                    Err(_) => "refused".to_string(),
                },
                _ => match $a.tell($m).try_send() {
                    Ok(()) => "told".to_string(),
                    Err(_) => "refused".to_string(),
                },
            }
        };
    }
    pub use drive;
}
