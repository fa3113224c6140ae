//! Native replay of a harness on one input: `vrun <entry> <hex input> [args...]`.
//! Exit status: 0 property held, 1 assertion failed, 3 assumption not met, 101/134 panic.

use std::cell::RefCell;

thread_local! {
    static IN: RefCell<(Vec<u8>, usize)> = RefCell::new((vec![], 0));
}

#[no_mangle]
extern "C" fn __rsx_byte() -> u8 {
    IN.with(|i| {
        let mut i = i.borrow_mut();
        let p = i.1;
        i.1 += 1;
        if p < i.0.len() {
            i.0[p]
        } else {
            println!("INPUT-EXHAUSTED");
            std::process::exit(4)
        }
    })
}
#[no_mangle]
extern "C" fn __rsx_assume(c: u8) {
    if c == 0 {
        println!("ASSUME-FALSE");
        std::process::exit(3)
    }
}
fn s(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
}
#[no_mangle]
extern "C" fn __rsx_assert(c: u8, p: *const u8, n: usize) {
    if c == 0 {
        println!("ASSERT-FAILED {}", s(p, n));
        std::process::exit(1)
    }
}
#[no_mangle]
extern "C" fn __rsx_fail(p: *const u8, n: usize) -> ! {
    println!("ASSERT-FAILED {}", s(p, n));
    std::process::exit(1)
}
#[no_mangle]
extern "C" fn __rsx_note(p: *const u8, n: usize) {
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
    println!("NOTE n{h}");
}
#[no_mangle]
extern "C" fn __rsx_mark(p: *const u8, n: usize) {
    println!("MARK {}", s(p, n));
}
#[no_mangle]
extern "C" fn __rsx_log(p: *const u8, n: usize) {
    println!("LOG {}", s(p, n));
}
#[no_mangle]
extern "C" fn __rsx_hashmode(_m: u32) {}
#[no_mangle]
extern "C" fn __rsx_concrete(v: u64) -> u64 {
    v
}

/// a process of its own running bulloak's main, with its output in files
#[no_mangle]
extern "C" fn __rsx_cli(p: *const u8, n: usize) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let a = s(p, n);
    let f = |n: &str| std::fs::File::create(n).unwrap();
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .args(a.split('\0').filter(|x| !x.is_empty()))
        .env("VRUN_CLI", "1")
        .stdout(f(".out"))
        .stderr(f(".err"))
        .stdin(std::process::Stdio::null())
        .status()
        .unwrap();
    if st.signal().is_some() || st.code() == Some(101) {
        println!("PANIC {}", std::fs::read_to_string(".err").unwrap_or_default().lines().find(|l| l.starts_with("PANIC ")).unwrap_or("PANIC ?").trim_start_matches("PANIC "));
        std::process::exit(134)
    }
    st.code().unwrap()
}
fn list(d: &str, o: &mut Vec<String>) {
    for e in std::fs::read_dir(if d.is_empty() { "." } else { d }).unwrap() {
        let e = e.unwrap();
        let n = format!("{}{}{}", d, if d.is_empty() { "" } else { "/" }, e.file_name().to_string_lossy());
        if n == ".out" || n == ".err" {
            continue;
        }
        if e.file_type().unwrap().is_dir() {
            list(&n, o);
            o.push(n + "/");
        } else {
            o.push(n);
        }
    }
}
#[no_mangle]
extern "C" fn __rsx_files(p: *mut u8, cap: usize) -> usize {
    let mut o = vec![];
    list("", &mut o);
    o.sort_by(|a, b| a.trim_end_matches('/').cmp(b.trim_end_matches('/')));
    let t: String = o.iter().map(|x| x.clone() + "\n").collect();
    assert!(t.len() <= cap);
    unsafe { std::ptr::copy_nonoverlapping(t.as_ptr(), p, t.len()) };
    t.len()
}

fn main() {
    if std::env::var_os("VRUN_CLI").is_some() {
        std::panic::set_hook(Box::new(|i| {
            eprintln!("PANIC {}", i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default());
        }));
        vh::cli_main();
    }
    let a: Vec<String> = std::env::args().collect();
    let h = &a[2];
    let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    IN.with(|i| *i.borrow_mut() = (b, 0));
    let args: Vec<u64> = a[3..].iter().map(|x| x.parse().unwrap()).collect();
    std::panic::set_hook(Box::new(|i| {
        println!("PANIC {}", i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default());
        eprintln!("{i}");
    }));
    vh::dispatch(&a[1], &args);
    println!("OK");
}
