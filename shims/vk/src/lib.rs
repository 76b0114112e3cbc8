//! Symbolic inputs under Kani, recorded inputs under a native replay.
//!
//! Under `cfg(kani)` every `any_*` is an unconstrained symbolic value and `assume` cuts the path.
//! Natively the same calls pop, in the same order, the byte vectors of the solver's assignment
//! (one vector per call, little endian), so a harness replays exactly the solver's counterexample
//! against the compiled code.

#[cfg(not(kani))]
pub mod native {
    use std::cell::RefCell;
    use std::collections::VecDeque;

    pub enum Src {
        Recorded(VecDeque<Vec<u8>>),
        Random(u64),
    }
    thread_local! { pub static SRC: RefCell<Src> = RefCell::new(Src::Recorded(VecDeque::new())); }

    /// Panic payload of a violated assumption: the run says nothing about the property.
    pub struct AssumeFailed;
    /// Panic payload when the recorded values run out.
    pub struct OutOfValues;

    pub fn set_recorded(v: Vec<Vec<u8>>) {
        SRC.with(|s| *s.borrow_mut() = Src::Recorded(v.into()));
    }
    pub fn set_random(seed: u64) {
        SRC.with(|s| *s.borrow_mut() = Src::Random(seed.wrapping_mul(2).wrapping_add(1)));
    }
    pub fn next(n: usize) -> Vec<u8> {
        SRC.with(|s| match &mut *s.borrow_mut() {
            Src::Recorded(q) => match q.pop_front() {
                Some(mut v) => {
                    v.resize(n, 0);
                    v
                }
                None => std::panic::panic_any(OutOfValues),
            },
            Src::Random(x) => {
                // xorshift64*, biased to small and boundary values
                let mut r = || {
                    *x ^= *x >> 12;
                    *x ^= *x << 25;
                    *x ^= *x >> 27;
                    x.wrapping_mul(0x2545F4914F6CDD1D)
                };
                let mode = r() % 8;
                let mut v: Vec<u8> = (0..n).map(|_| (r() >> 32) as u8).collect();
                if mode < 4 {
                    let k = (r() >> 32) as u8 % 6;
                    for (i, b) in v.iter_mut().enumerate() {
                        *b = if i == 0 { k } else { 0 };
                    }
                } else if mode == 4 {
                    for b in v.iter_mut().skip(2) {
                        *b = 0;
                    }
                } else if mode == 5 {
                    for b in v.iter_mut() {
                        *b = 0xff;
                    }
                }
                v
            }
        })
    }
}

macro_rules! ints {
    ($($f:ident $t:ty),*) => {$(
        #[cfg(kani)]
        #[inline(never)]
        pub fn $f() -> $t { kani::any::<$t>() }
        #[cfg(not(kani))]
        pub fn $f() -> $t {
            let b = native::next(std::mem::size_of::<$t>());
            <$t>::from_le_bytes(b.as_slice().try_into().unwrap())
        }
    )*};
}
ints!(any_u8 u8, any_u16 u16, any_u32 u32, any_u64 u64, any_u128 u128, any_i8 i8, any_i16 i16, any_i32 i32,
      any_i64 i64, any_i128 i128, any_usize usize);

pub fn any_bool() -> bool {
    let v = any_u8();
    v & 1 == 1
}

/// A value below `n`.
pub fn below(n: usize) -> usize {
    let v = any_u8() as usize;
    assume(v < n);
    v
}

/// A value in `lo..=hi`.
pub fn range_i64(lo: i64, hi: i64) -> i64 {
    let v = any_i64();
    assume(v >= lo && v <= hi);
    v
}

pub fn opt<T>(f: impl FnOnce() -> T) -> Option<T> {
    if any_bool() { Some(f()) } else { None }
}

#[cfg(kani)]
pub fn assume(b: bool) {
    kani::assume(b)
}
#[cfg(not(kani))]
pub fn assume(b: bool) {
    if !b {
        std::panic::panic_any(native::AssumeFailed)
    }
}

/// Reachability witness: the driver demands that every one is satisfiable.
#[macro_export]
macro_rules! witness {
    ($c:expr) => {
        #[cfg(kani)]
        kani::cover!($c, "vk witness");
        #[cfg(not(kani))]
        let _ = $c;
    };
}

/// Natively: run one harness and say what happened.
#[cfg(not(kani))]
pub fn run_native(name: &str, f: fn(), quiet: bool) -> &'static str {
    use std::sync::Mutex;
    static MSG: Mutex<String> = Mutex::new(String::new());
    std::panic::set_hook(Box::new(|i| {
        *MSG.lock().unwrap() = format!("{}", i);
    }));
    let r = std::panic::catch_unwind(f);
    let _ = std::panic::take_hook();
    match r {
        Ok(()) => {
            if !quiet {
                println!("REPLAY {name}: passed");
            }
            "pass"
        }
        Err(e) => {
            if e.downcast_ref::<native::AssumeFailed>().is_some() {
                if !quiet {
                    println!("REPLAY {name}: assumption violated");
                }
                "assume"
            } else if e.downcast_ref::<native::OutOfValues>().is_some() {
                println!("REPLAY {name}: ran out of recorded values");
                "short"
            } else {
                println!("REPLAY {name}: FAILED: {}", MSG.lock().unwrap());
                "fail"
            }
        }
    }
}

/// `replay NAME` with one value per stdin line (comma separated bytes), or `replay NAME --random N SEED`.
#[cfg(not(kani))]
pub fn replay_main(table: &[(&'static str, fn())]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let (name, f) = table
        .iter()
        .find(|(n, _)| *n == args[1])
        .unwrap_or_else(|| panic!("no harness {}", args[1]));
    if args.len() > 2 && args[2] == "--random" {
        let n: u64 = args[3].parse().unwrap();
        let seed: u64 = args[4].parse().unwrap();
        let (mut p, mut a, mut fl) = (0u64, 0u64, 0u64);
        for i in 0..n {
            native::set_random(seed.wrapping_mul(1_000_003).wrapping_add(i * 7919 + 1));
            match run_native(name, *f, true) {
                "pass" => p += 1,
                "assume" => a += 1,
                _ => fl += 1,
            }
        }
        println!("RANDOM {name}: pass={p} assume={a} fail={fl}");
        std::process::exit(if fl > 0 { 1 } else { 0 });
    }
    let mut vals = vec![];
    for l in std::io::stdin().lines() {
        let l = l.unwrap();
        let l = l.trim();
        if l.is_empty() {
            vals.push(vec![]);
            continue;
        }
        vals.push(l.split(',').map(|x| x.trim().parse::<u8>().unwrap()).collect());
    }
    native::set_recorded(vals);
    let r = run_native(name, *f, false);
    std::process::exit(match r {
        "pass" => 0,
        "fail" => 1,
        _ => 3,
    });
}
