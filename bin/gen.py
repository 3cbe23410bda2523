"""Code generation from the corpus by /repo's generator, and the crate which checks the generated code.

 .build/gen/tool    a small program which calls the generator library of /repo
 .build/gen/only    the generated code alone
 .build/gen/crate   the generated code, the reference semantics (harness_gen) and the glue (bin/genglue.py)
"""
import os, re, shutil, subprocess, hashlib
from layers import B, V, Broken, Lock, sh
import genglue

G = os.path.join(B, "gen")
TGT = os.path.join(B, "gentgt")
MAIN = """use std::path::Path;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut m = zserio_rs_build::Model::from_filesystem(Path::new(&a[1]));
    m.evaluate();
    zserio_rs_build::generate_model(&mut m, Path::new(&a[2]), &a[3]);
}
"""


class Failed(Exception):
    """the generator, or the code it generated, failed on the corpus: (obligation, message)"""


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def cargo(d, what=()):
    return sh(["cargo", "build", "--offline", "--target-dir", TGT, *what], cwd=d, timeout=840)


def tool():
    d = os.path.join(G, "tool")
    put(os.path.join(d, "Cargo.toml"), '[package]\nname = "zvgen"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nzserio-rs-build = { path = "/repo/crates/zserio-rs-build" }\n[profile.dev]\ndebug = 0\n')
    put(os.path.join(d, "src/main.rs"), MAIN)
    if os.path.exists("/repo/Cargo.lock") and not os.path.exists(os.path.join(d, "Cargo.lock")):
        shutil.copy("/repo/Cargo.lock", os.path.join(d, "Cargo.lock"))
    rc, o, e = cargo(d)
    if rc:
        raise Broken("the generator does not build:\n" + e[-3000:])
    return os.path.join(TGT, "debug", "zvgen")


def tree(src):
    r = {}
    for d, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(d, f)
            r[os.path.relpath(p, src)] = open(p).read()
    return r


def sync(files, dst):
    """the files of a folder, rewriting only those that changed"""
    for d, _, fs in os.walk(dst):
        for f in fs:
            if os.path.relpath(os.path.join(d, f), dst) not in files:
                os.unlink(os.path.join(d, f))
    for n, t in files.items():
        put(os.path.join(dst, n), t)


TOML = open(os.path.join(V, "harness_gen", "Cargo.toml")).read()


def generate():
    """generate, and emit the sources of the two crates; raises Failed"""
    exe = tool()
    out = os.path.join(G, "out")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    rc, o, e = sh([exe, os.path.join(V, "corpus"), out, ""], timeout=120)
    if rc:
        raise Failed("generate", "the generator fails on the corpus: " + (o + e)[-1500:])
    files = tree(out)
    root = files.pop("lib.rs", None)
    if root is None:
        raise Failed("generate", "the generator wrote no lib.rs")
    only = {"src/" + k: v for k, v in files.items()}
    only["src/lib.rs"] = "#![allow(warnings)]\n" + root
    only["Cargo.toml"] = re.sub(r"\[lib\].*?\n\n|\[\[bin\]\].*?\n\n", "", TOML.replace("harness_gen", "generated_only"), flags=re.S)
    only["Cargo.lock"] = open(os.path.join(V, "harness_gen", "Cargo.lock")).read().replace("harness_gen", "generated_only")
    sync(only, os.path.join(G, "only"))
    h = lambda n: open(os.path.join(V, "harness_gen", n)).read()
    r = lambda n: open(os.path.join(V, "harness", "src", n)).read()
    c = {"src/" + k: v for k, v in files.items()}
    c.update({"Cargo.toml": TOML, "Cargo.lock": h("Cargo.lock"), "src/engine.rs": h("engine.rs"), "src/props.rs": h("props.rs"),
              "src/shim.rs": r("shim.rs"), "src/spec.rs": r("spec.rs"), "src/main.rs": r("main.rs"),
              "src/lib.rs": h("lib.rs").replace('include!("zv_root.rs");', root)})
    try:
        g = genglue.Glue(os.path.join(V, "corpus"), out)
        c["src/ast.rs"] = g.ast()
        c["src/glue.rs"] = g.glue(genglue.groups)
    except genglue.Missing as x:
        raise Failed("generate", str(x))
    sync(c, os.path.join(G, "crate"))
    return files


def compile():
    rc, o, e = cargo(os.path.join(G, "crate"))
    if rc == 0:
        return
    rc2, o2, e2 = cargo(os.path.join(G, "only"))
    if rc2:
        raise Failed("compile", "the generated code does not compile: " + e2[-3000:])
    if e.count("error") and ("src/engine.rs" in e or "src/props.rs" in e) and "src/glue.rs" not in e:
        raise Broken("the generator harness does not build:\n" + e[-4000:])
    raise Failed("interface", "the generated types do not have the fields, functions and values the schema declares: " + e[-3000:])


def build(ctx):
    """True if there is something to run"""
    try:
        generate()
        compile()
        return True
    except Failed as x:
        ctx.violation(x.args[0], dict(message=x.args[1], input="the schemas of /verif/corpus", reproduce="%s/debug/zvgen /verif/corpus OUT ''" % TGT), True)
        return False
