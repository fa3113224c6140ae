#!/usr/bin/env python3
"""Builds the harness from /repo's current sources and prepares its LLVM IR for the engine.

Everything goes to /verif/build (ignored by git).  The crates of /repo and the harness are always
recompiled; third-party crates and the standard library are cached by their cargo file names.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, "build")
REPO = "/repo"
OWN = ["bulloak_syntax", "bulloak_foundry", "vh", "vcli"]
CLIDEPS = ["clap", "clap_builder", "clap_lex", "anstream", "anstyle", "anstyle_parse", "anstyle_query", "utf8parse",
           "colorchoice", "strsim", "terminal_size", "figment", "uncased", "serde_json", "toml", "glob"]
DEPS = CLIDEPS + ["anyhow", "thiserror", "unicode_xid", "regex", "regex_automata", "regex_syntax", "aho_corasick", "memchr",
        "once_cell", "indexmap", "equivalent", "hashbrown", "owo_colors", "forge_fmt", "solang_parser", "phf",
        "phf_shared", "siphasher", "itertools", "either", "ariadne", "yansi", "unicode_width", "lalrpop_util",
        "alloy_primitives", "foundry_config", "ethers_core", "tracing", "tracing_core", "unicode_ident", "serde", "log",
        "is_terminal", "supports_color", "concolor", "atty", "libc"]
def env():
    e = dict(os.environ)
    e.update(HOME="/root", LANG="C.UTF-8", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER=os.path.join(V, "tools/rustc-wrapper.sh"))
    for k in ("CARGO_INCREMENTAL", "CARGO_PROFILE_DEV_DEBUG", "RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit(f"build: {' '.join(cmd[:4])} failed with {r.returncode}")
    return r.stdout


def llvm():
    s = subprocess.check_output(["rustc", "+stable", "--print", "sysroot"], text=True, env=env()).strip()
    return s, os.path.join(s, "lib/rustlib/x86_64-unknown-linux-gnu/bin")


def std_ir(sysroot, bin_):
    out = os.path.join(B, "std")
    done = os.path.join(out, "done")
    if os.path.exists(done):
        return
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    lib = os.path.join(sysroot, "lib/rustlib/x86_64-unknown-linux-gnu/lib")
    jobs = []
    for r in sorted(glob.glob(os.path.join(lib, "lib*.rlib"))):
        c = os.path.basename(r)[3:-5].split("-")[0]
        if c in ("test", "proc_macro", "compiler_builtins", "profiler_builtins", "getopts", "sysroot"):
            continue
        d = os.path.join(out, "x_" + c)
        os.makedirs(d)
        sh([os.path.join(bin_, "llvm-ar"), "x", r], cwd=d)
        for i, o in enumerate(sorted(glob.glob(os.path.join(d, "*.o")))):
            jobs.append((o, os.path.join(out, f"std_{c}_{i}.ll")))

    def conv(j):
        o, dst = j
        bc = o + ".bc"
        q = subprocess.run([os.path.join(bin_, "llvm-objcopy"), "--dump-section", ".llvmbc=" + bc, o],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if q.returncode == 0 and os.path.getsize(bc) > 0:
            sh([os.path.join(bin_, "opt"), "-S", "-strip-debug", bc, "-o", dst])

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(conv, jobs))
    for d in glob.glob(os.path.join(out, "x_*")):
        shutil.rmtree(d)
    open(done, "w").close()


NOINLINE = re.compile(r"^define [^@]*@[\"]?[^(\"]*8hash_one[^(\"]*[\"]?\(.*$")


def optimise(bin_, src, dst, own):
    """noinline marks for hooked functions, then the standard scalar pipeline"""
    tmp = dst + ".tmp.ll"
    with open(src) as f, open(tmp, "w") as g:
        for line in f:
            if line.startswith("define ") and "8hash_one" in line:
                # the attribute group / brace is at the end of the line: put noinline before it
                m = re.match(r"^(define .*\))(\s*(?:unnamed_addr|local_unnamed_addr)?)(.*)$", line.rstrip("\n"))
                line = f"{m.group(1)}{m.group(2)} noinline{m.group(3)}\n"
            g.write(line)
    sh([os.path.join(bin_, "opt"), "-S", "-strip-debug", "-passes=default<O2>", "-vectorize-loops=false", "-vectorize-slp=false", tmp, "-o",
        dst + ".part"])
    os.remove(tmp)
    os.rename(dst + ".part", dst)


def engine():
    exe = os.path.join(B, "engine", "release", "rsx")
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(B, "engine")
    e.pop("RUSTC_WRAPPER")
    sh(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(V, "engine"), env=e)
    return exe


def prepare_phf():
    d = os.path.join(B, "phf")
    if os.path.exists(os.path.join(d, "Cargo.toml")):
        return
    src = glob.glob("/root/.cargo/registry/src/*/phf-0.11.2")[0]
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(src, d)
    for f in ("Cargo.toml.orig", ".cargo_vcs_info.json", ".cargo-ok"):
        p = os.path.join(d, f)
        if os.path.exists(p):
            os.remove(p)
    p = os.path.join(d, "src/map.rs")
    t = open(p).read()
    i = t.index("        if self.disps.is_empty() {\n            return None;\n        } //Prevent panic on empty map")
    j = t.index("    /// Like", i) if "    /// Like" in t[i:] else t.index("\n    }\n", i)
    j = t.index("\n    }\n", i)
    t = t[:i] + """        for entry in self.entries {
            let b: &T = entry.0.borrow();
            if b == key {
                return Some((&entry.0, &entry.1));
            }
        }
        None""" + t[j:]
    open(p, "w").write(t)


def prepare_regex():
    """the regex crate without its lazy DFA: the same language, searched by backtracking over the NFA"""
    d = os.path.join(B, "regex")
    if os.path.exists(os.path.join(d, "Cargo.toml")):
        return
    src = glob.glob("/root/.cargo/registry/src/*/regex-1.10.2")[0]
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(src, d)
    for f in ("Cargo.toml.orig", ".cargo_vcs_info.json", ".cargo-ok"):
        p = os.path.join(d, f)
        if os.path.exists(p):
            os.remove(p)
    p = os.path.join(d, "src/builders.rs")
    t = open(p).read()
    a = "            .hybrid_cache_capacity(2 * (1 << 20));"
    assert a in t
    open(p, "w").write(t.replace(a, a[:-1] + ".hybrid(false).onepass(false).dfa(false);"))


def prepare_cli():
    """bulloak's binary crate as a library with a reachable main"""
    src = os.path.join(REPO, "crates/bulloak/src")
    t = open(os.path.join(src, "main.rs")).read()
    t = re.sub(r"^#!\[.*\]\s*$", "", t, flags=re.M)
    t = re.sub(r"^(\s*)((?:pub(?:\([^)]*\))?\s+)?mod\s+(\w+)\s*;)",
               lambda m: m.group(1) + '#[path = "%s"] %s' % (
                   next((p for p in (os.path.join(src, m.group(3) + ".rs"), os.path.join(src, m.group(3), "mod.rs")) if os.path.exists(p)), ""), m.group(2)),
               t, flags=re.M)
    t += """
#[no_mangle]
pub extern "C" fn vh_cli_main() {
    let _ = main();
    std::process::exit(0)
}
"""
    d = os.path.join(B, "cli")
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "lib.rs"), "w").write(t)


def cargo(crate, own):
    d = os.path.join(V, crate)
    tgt = os.path.join(B, "target")
    lock = os.path.join(d, "Cargo.lock")
    fp = os.path.join(tgt, "debug/.fingerprint")
    for p in glob.glob(os.path.join(fp, "*")):
        n = os.path.basename(p)
        if n.startswith(("bulloak", "vh-", "vcli-")):
            shutil.rmtree(p)
    for n in own:
        for p in glob.glob(os.path.join(tgt, "debug/deps", n + "-*.ll")):
            os.remove(p)
    shutil.copy(os.path.join(REPO, "Cargo.lock"), lock)
    e = env()
    e["CARGO_TARGET_DIR"] = tgt
    e["RUSTFLAGS"] = "--emit=llvm-ir,link -C no-prepopulate-passes -C panic=abort -Awarnings"
    r = subprocess.run(["cargo", "build", "--offline", "--message-format=json-render-diagnostics"], cwd=d, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-6000:])
        raise SystemExit("build: cargo failed")
    arts = {}
    exe = None
    for l in r.stdout.splitlines():
        m = json.loads(l)
        if m.get("reason") != "compiler-artifact":
            continue
        k = m["target"]["kind"]
        if "proc-macro" in k or "custom-build" in k:
            continue
        if m.get("executable"):
            exe = m["executable"]
            continue
        for f in m["filenames"]:
            b = os.path.basename(f)
            if b.endswith(".rlib"):
                stem = b[3:-5]
                arts.setdefault(m["target"]["name"].replace("-", "_"), set()).add(stem)
    return arts, exe


DEF = re.compile(r'^define [^@]*@"?(_R[A-Za-z0-9_$.]+)', re.M)
DECL = re.compile(r'^declare [^@]*@"?(_R[A-Za-z0-9_$.]+)', re.M)


def symbols(path, cache, rx, tag):
    """the symbols defined or declared by a module (kept beside the cached modules)"""
    c = os.path.join(cache, os.path.basename(path) + "." + tag)
    if not os.path.exists(c) or os.path.getmtime(c) < os.path.getmtime(path):
        with open(path) as f, open(c + ".part", "w") as g:
            g.write("\n".join(sorted(set(rx.findall(f.read())))))
        os.rename(c + ".part", c)
    return set(open(c).read().split())


def extras(bin_, ll, cache, arts):
    """Instances of generic functions that live in crates which are not loaded as a whole: their
    modules, cut down to these functions."""
    tgt = os.path.join(B, "target/debug/deps")
    others = {}
    for name, stems in arts.items():
        if name in OWN or name in DEPS:
            continue
        for s in stems:
            p = os.path.join(tgt, s + ".ll")
            if os.path.exists(p):
                others[s] = p
    with ThreadPoolExecutor(8) as ex:
        where = {}
        for s, d in zip(others, ex.map(lambda p: symbols(p, cache, DEF, "def"), others.values())):
            for x in d:
                where.setdefault(x, s)
    have, want = set(), set()
    skip = ("1_foundry_config", "1_ethers_core")
    for f in os.listdir(ll):
        p = os.path.join(ll, f)
        if f.startswith("0_"):
            text = open(p).read()
            have |= set(DEF.findall(text))
            want |= set(DECL.findall(text))
        else:
            have |= symbols(os.path.realpath(p), cache, DEF, "def")
            if not f.startswith(skip):
                want |= symbols(os.path.realpath(p), cache, DECL, "decl")
    todo = {x for x in want - have if x in where}
    done = {}
    while todo:
        by = {}
        for x in todo:
            by.setdefault(where[x], set()).add(x)
        new = set()
        for s, xs in by.items():
            xs |= done.get(s, set())
            done[s] = xs
            key = hashlib.sha1(" ".join(sorted(xs)).encode()).hexdigest()[:12]
            c = os.path.join(cache, f"x_{s}_{key}.ll")
            if not os.path.exists(c):
                lst = c + ".list"
                with open(lst, "w") as f:
                    f.write("\n".join(sorted(xs)) + "\n")
                sh([os.path.join(bin_, "opt"), "-S", "-strip-debug", "-passes=internalize,globaldce,default<O2>",
                    "-internalize-public-api-file=" + lst, "-vectorize-loops=false", "-vectorize-slp=false", others[s], "-o", c + ".part"])
                os.rename(c + ".part", c)
            l = os.path.join(ll, f"3_{s}.ll")
            if os.path.lexists(l):
                os.remove(l)
            os.symlink(c, l)
            have |= symbols(c, cache, DEF, "def")
            new |= symbols(c, cache, DECL, "decl")
        todo = {x for x in new - have if x in where}


def content_key():
    """a digest of every file the build reads"""
    h = hashlib.sha256()
    for top in (REPO, os.path.join(V, "harness"), os.path.join(V, "engine"), os.path.join(V, "tools")):
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in (".git", "target", "__pycache__"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if top.endswith("/tools") and f not in ("build.py", "rustc-wrapper.sh"):
                    continue
                if os.path.islink(p) or not os.path.isfile(p) or f == "Cargo.lock" and top != REPO:
                    continue
                h.update(p.encode() + b"\0" + str(os.path.getsize(p)).encode() + b"\0")
                h.update(open(p, "rb").read())
    return h.hexdigest()


def main():
    os.makedirs(B, exist_ok=True)
    lk = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lk, fcntl.LOCK_EX)
    t0 = time.time()
    key = content_key()
    stamp = os.path.join(B, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == key:
        print("build: nothing changed", file=sys.stderr)
        return
    if os.path.exists(stamp):
        os.remove(stamp)
    sysroot, bin_ = llvm()
    exe = engine()
    prepare_phf()
    prepare_regex()
    prepare_cli()
    std_ir(sysroot, bin_)
    arts, vrun = cargo("harness", OWN)
    t1 = time.time()
    ll = os.path.join(B, "ll")
    cache = os.path.join(B, "llcache")
    os.makedirs(cache, exist_ok=True)
    shutil.rmtree(ll, ignore_errors=True)
    os.makedirs(ll)
    for n in OWN:
        for p in glob.glob(os.path.join(B, "target/debug/deps", n + "-*.ll")):
            arts.setdefault(n, set()).add(os.path.basename(p)[:-3])
    jobs = []
    for name, stems in sorted(arts.items()):
        for s in sorted(stems):
            src = os.path.join(B, "target/debug/deps", s + ".ll")
            if not os.path.exists(src):
                continue
            if name in OWN:
                jobs.append((src, os.path.join(ll, "0_" + s + ".ll"), True))
            elif name in DEPS:
                c = os.path.join(cache, s + ".ll")
                if not os.path.exists(c):
                    jobs.append((src, c, False))
                os.symlink(c, os.path.join(ll, "1_" + s + ".ll"))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: optimise(bin_, *j), jobs))
    for f in glob.glob(os.path.join(B, "std/std_*.ll")):
        os.symlink(f, os.path.join(ll, "2_" + os.path.basename(f)))
    extras(bin_, ll, cache, arts)
    json.dump({"engine": exe, "vrun": vrun, "lldir": ll}, open(os.path.join(B, "paths.json"), "w"))
    open(stamp, "w").write(key)
    print(f"build: cargo {t1-t0:.1f}s, ir {time.time()-t1:.1f}s, {len(os.listdir(ll))} modules", file=sys.stderr)


if __name__ == "__main__":
    main()
