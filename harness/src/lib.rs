pub mod chk;
pub mod cli;
pub mod fnd;
pub mod gen;
pub mod orc;
pub mod rt;
pub mod syn;

pub fn cli_main() -> ! {
    vcli::vh_cli_main();
    unreachable!()
}

macro_rules! entries {
    ($($name:ident => $f:path;)*) => {
        $(
            #[no_mangle]
            pub extern "C" fn $name(a: u64, b: u64, c: u64) { $f(a, b, c) }
        )*
        pub fn dispatch(n: &str, args: &[u64]) {
            let g = |i: usize| args.get(i).copied().unwrap_or(0);
            match n {
                $(stringify!($name) => $f(g(0), g(1), g(2)),)*
                _ => panic!("no entry {n}"),
            }
        }
    };
}

entries! {
    h_raw => syn::raw;
    h_raw_after => syn::raw_after;
    h_soup => syn::soup;
    h_lines => syn::lines;
    h_tree => syn::tree;
    h_keyword => syn::keyword;
    h_layout => syn::layout;
    h_dups => syn::dups;
    h_multi => syn::multi;
    h_hash => syn::hash;
    f_tree => fnd::tree;
    f_revert => fnd::revert;
    f_root => fnd::root;
    f_multi => fnd::multi;
    f_titles => fnd::titles;
    f_long => fnd::long;
    f_version => fnd::version;
    c_batch => cli::batch;
    c_swrites => cli::scaffold_writes;
    c_cwrites => cli::check_writes;
    c_sbatch => cli::scaffold_batch;
    c_check => chk::check_pair;
    c_contract => chk::contract;
    c_fix => chk::fix_pair;
    c_hash => chk::hash_pair;
}
