#!/usr/bin/env python3
"""Copies two dependency crates from cargo's registry into build/patched and edits them for the harness build.

statrs      sample_std_normal() asks the harness for the next draw when the harness has switched its
            normal stub on (otherwise it is the original code).
rayon-core  join_context() runs both closures on the calling thread in an order chosen by the harness and
            reports an arbitrary `migrated` flag; current_num_threads() is what the harness says.
"""
import glob, os, shutil, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
dst = os.path.join(root, "build", "patched")

def reg(name):
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    for base in (home, "/root/.cargo"):
        c = sorted(glob.glob(os.path.join(base, "registry", "src", "*", name)))
        if c:
            return c[0]
    sys.exit("patch_deps: %s not in the cargo registry" % name)

def sub(path, old, new):
    s = open(path).read()
    if old not in s:
        sys.exit("patch_deps: pattern not found in %s" % path)
    s = s.replace(old, new, 1)
    open(path, "w").write(s)

def main():
    mark = os.path.join(dst, ".done6")
    if os.path.exists(mark):
        return
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    s = os.path.join(dst, "statrs")
    shutil.copytree(reg("statrs-0.18.0"), s)
    sub(os.path.join(s, "src/distribution/ziggurat.rs"),
        "pub fn sample_std_normal<R: Rng + ?Sized>(rng: &mut R) -> f64 {\n",
        "extern \"C\" { fn v_normal_mode() -> u64; fn v_normal_next() -> f64; }\n"
        "pub fn sample_std_normal<R: Rng + ?Sized>(rng: &mut R) -> f64 {\n"
        "    if unsafe { v_normal_mode() } != 0 { return unsafe { v_normal_next() }; }\n")
    sub(os.path.join(s, "src/lib.rs"), "#![forbid(unsafe_code)]", "")
    r = os.path.join(dst, "rayon-core")
    shutil.copytree(reg("rayon-core-1.13.0"), r)
    p = os.path.join(r, "src/join/mod.rs")
    t = open(p).read()
    a = t.index("    registry::in_worker(|worker_thread, injected| unsafe {")
    # body of join_context up to its closing brace
    b = t.index("\n}\n", a)
    body = """    let _ = (call_a::<RA>, call_b::<RB>);
    let (order, migrated) = unsafe { (v_join_order(), v_join_migrated()) };
    if order == 0 {
        let ra = oper_a(FnContext::new(false));
        let rb = oper_b(FnContext::new(migrated != 0));
        (ra, rb)
    } else {
        let rb = oper_b(FnContext::new(migrated != 0));
        let ra = oper_a(FnContext::new(false));
        (ra, rb)
    }"""
    body = body.replace("    let _ = (call_a::<RA>, call_b::<RB>);\n", "")
    t = t[:a] + body + t[b:]
    i = t.index("    #[inline]\n    fn call_a<R>")
    j = t.index("    let (order, migrated)")
    t = t[:i] + t[j:]
    t = t.replace("use std::any::Any;\n", "use std::any::Any;\n\nextern \"C\" { fn v_join_order() -> u64; fn v_join_migrated() -> u64; }\n", 1)
    open(p, "w").write(t)
    l = os.path.join(r, "src/lib.rs")
    sub(l, "pub fn current_num_threads() -> usize {\n", "pub fn current_num_threads() -> usize {\n    extern \"C\" { fn v_num_threads() -> u64; }\n    if true { return unsafe { v_num_threads() } as usize; }\n")
    for d in (s, r):
        for junk in ("tests", "examples", "benches", "data"):
            pass
    open(mark, "w").write("ok")

main()
