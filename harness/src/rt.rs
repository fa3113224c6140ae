//! The interface between a harness and whatever executes it: the symbolic engine, or the native
//! runtime in `bin/vrun.rs` that replays one concrete input.

extern "C" {
    fn __rsx_byte() -> u8;
    fn __rsx_assume(c: u8);
    fn __rsx_assert(c: u8, p: *const u8, n: usize);
    fn __rsx_note(p: *const u8, n: usize);
    fn __rsx_mark(p: *const u8, n: usize);
    fn __rsx_fail(p: *const u8, n: usize) -> !;
    fn __rsx_hashmode(m: u32);
    fn __rsx_concrete(v: u64) -> u64;
    fn __rsx_log(p: *const u8, n: usize);
    fn __rsx_cli(p: *const u8, n: usize) -> i32;
    fn __rsx_files(p: *mut u8, n: usize) -> usize;
}

/// for debugging a harness
pub fn log(b: &[u8]) {
    unsafe { __rsx_log(b.as_ptr(), b.len()) }
}
/// runs `bulloak args...` as a process of its own in this directory; its exit status
pub fn cli(args: &[&str]) -> i32 {
    let a = args.join("\0");
    unsafe { __rsx_cli(a.as_ptr(), a.len()) }
}
/// what the last process printed
pub fn out() -> Vec<u8> {
    std::fs::read(".out").unwrap()
}
pub fn err() -> Vec<u8> {
    std::fs::read(".err").unwrap()
}
/// every file (and, with a slash, directory) below this directory
pub fn files() -> Vec<String> {
    let mut b = vec![0u8; 4096];
    let n = unsafe { __rsx_files(b.as_mut_ptr(), b.len()) };
    String::from_utf8_lossy(&b[..n]).lines().map(|l| l.to_string()).collect()
}

/// a fresh, unconstrained input byte
pub fn byte() -> u8 {
    unsafe { __rsx_byte() }
}
pub fn assume(c: bool) {
    unsafe { __rsx_assume(c as u8) }
}
/// the property: `c` must hold for every input that gets here
pub fn check(c: bool, label: &str) {
    unsafe { __rsx_assert(c as u8, label.as_ptr(), label.len()) }
}
pub fn fail(label: &str) -> ! {
    unsafe { __rsx_fail(label.as_ptr(), label.len()) }
}
/// bytes that describe what this path computed (compared between engine and native runs)
pub fn note(b: &[u8]) {
    unsafe { __rsx_note(b.as_ptr(), b.len()) }
}
/// this path exercised a named situation (vacuity guard)
pub fn mark(s: &str) {
    unsafe { __rsx_mark(s.as_ptr(), s.len()) }
}
pub fn hashmode(m: u32) {
    unsafe { __rsx_hashmode(m) }
}
/// a number below `n`; explored for each of its values
pub fn below(n: usize) -> usize {
    let b = byte();
    assume((b as usize) < n);
    unsafe { __rsx_concrete(b as u64) as usize }
}
/// a number below `n` that stays symbolic
pub fn below_sym(n: usize) -> u8 {
    let b = byte();
    assume((b as usize) < n);
    b
}
pub fn flag() -> bool {
    below(2) == 1
}
/// one of the bytes of `set`, kept symbolic
pub fn one_of(set: &[u8]) -> u8 {
    let i = below_sym(set.len());
    set[i as usize]
}

/// Characters a symbolic character ranges over: all of ASCII, and one or more representatives of
/// every class of other characters the code under test distinguishes (box drawing glyphs, blanks,
/// letters with special case mappings, identifier characters, marks, emoji, each UTF-8 length).
pub static CHARS: [u32; 256] = chars();
const EXTRA: &[u32] = &[
    0x2514, 0x251C, 0x2500, 0x2502, // └ ├ ─ │
    0x250C, 0x2510, 0x2524, 0x252C, 0x2574, 0x2501, 0x2517, 0x2523, // other box glyphs
    0x80, 0x85, 0xA0, 0xAD, 0x1680, 0x2000, 0x2003, 0x200A, 0x200B, 0x200D, 0x2028, 0x2029, 0x202F, 0x205F, 0x2060, 0x3000, 0xFEFF, // blanks
    0xAA, 0xB5, 0xB7, 0xBA, 0xC0, 0xC9, 0xD7, 0xDF, 0xE9, 0xF7, 0xFF, 0x100, 0x130, 0x131, 0x149, 0x17F, 0x1C5, 0x1F0, // latin
    0x300, 0x301, 0x345, 0x37A, 0x387, 0x390, 0x3A3, 0x3C2, 0x3C3, 0x3A9, 0x410, 0x44F, 0x587, 0x5D0, 0x640, 0x660, 0x6F0, 0x966, // marks, greek, cyrillic, digits
    0xE01, 0xE33, 0x10D0, 0x1C90, 0x13A0, 0xAB70, 0x1E9E, 0x1F80, 0x1F88, 0x1FBC, 0x2071, 0x2126, 0x212A, 0x212B, 0x2118, 0x2160, 0x2170, 0x24B6,
    0x2013, 0x2014, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2026, 0x203F, 0x2040, 0x2054, 0x20AC, 0x2192, 0x2212, 0x2713, 0x309B, 0x30A2, 0x30FB, 0x4E2D, 0x5B57, 0xAC00,
    0xD7FF, 0xE000, 0xF8FF, 0xFB00, 0xFB06, 0xFE33, 0xFE4D, 0xFF10, 0xFF21, 0xFF3F, 0xFF41, 0xFF65, 0xFFFD, 0xFFFF,
    0x10000, 0x10400, 0x10428, 0x1D400, 0x1D7CE, 0x1F600, 0x1F680, 0x20000, 0xE0001, 0xE0100, 0x10FFFF,
];
const fn chars() -> [u32; 256] {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        t[i] = if i < 128 { i as u32 } else { EXTRA[(i - 128) % EXTRA.len()] };
        i += 1;
    }
    t
}
/// a symbolic character
pub fn ch() -> char {
    let i = byte();
    assume((i as usize) < 128 + EXTRA.len());
    char::from_u32(CHARS[i as usize]).unwrap()
}
/// a symbolic ASCII character
pub fn ach() -> char {
    let i = byte();
    assume(i < 128);
    i as char
}
