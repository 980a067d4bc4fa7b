"""Lays out /verif/.build: an overlay package of /repo (links to everything in
/repo's root plus a Cargo.toml without the git dependencies, which nothing can
resolve offline), and the two third-party crates that need a source tweak to be
compiled by Kani (see DESIGN.md, "Toolchain"). Nothing of /repo is copied: the
overlay's src/ is a link, so what is compiled is /repo's working tree."""
import os, re, shutil, glob, subprocess, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = os.path.join(VERIF, ".build")
REG = "/root/.cargo/registry/src"

def put(path, new):
    if not os.path.exists(path) or open(path).read() != new:
        with open(path + ".tmp", "w") as f:
            f.write(new)
        os.replace(path + ".tmp", path)

def overlay():
    out = f"{B}/overlay"
    os.makedirs(out, exist_ok=True)
    text = open(f"{REPO}/Cargo.toml").read()
    git = re.findall(r"^([\w-]+)\s*=\s*\{[^}\n]*\bgit\s*=[^\n]*\n", text, re.M)
    for name in git:
        n = re.escape(name)
        text = re.sub(rf"^{n}\s*=\s*\{{[^\n]*\bgit\s*=[^\n]*\n", "", text, flags=re.M)
        text = re.sub(rf'"(dep:{n}|{n}\??/[^"\n]+)"\s*,?', "", text)
    put(f"{out}/Cargo.toml", text)
    keep = {"Cargo.toml", "Cargo.lock", ".git", "target"}
    want = {e for e in os.listdir(REPO) if e not in keep}
    for e in os.listdir(out):
        if os.path.islink(f"{out}/{e}") and e not in want:
            os.unlink(f"{out}/{e}")
    for e in want:
        p = f"{out}/{e}"
        if os.path.islink(p) and os.readlink(p) != f"{REPO}/{e}":
            os.unlink(p)
        if not os.path.lexists(p):
            os.symlink(f"{REPO}/{e}", p)

def registry(name):
    hits = glob.glob(f"{REG}/*/{name}")
    if not hits:
        raise SystemExit(f"crate source {name} is not in the cargo registry cache")
    return hits[0]

def patched():
    # backtrace (reached through nav -> anise -> snafu): Kani's std shadows
    # `unreachable!`, which the crate then cannot find unqualified.
    d = f"{B}/backtrace"
    if not os.path.exists(f"{d}/.ok"):
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(registry("backtrace-0.3.77"), d)
        p = f"{d}/src/types.rs"
        t = open(p).read()
        t2 = re.sub(r"(?<![:\w])unreachable!\(\)", "std::unreachable!()", t)
        open(p, "w").write(t2)
        open(f"{d}/.ok", "w").close()
    # hifitime: its own Kani harnesses and contracts (cfg(kani)) are switched off:
    # with them on, Epoch::from_str and the serde impls vanish under Kani.
    d = f"{B}/hifitime"
    if not os.path.exists(f"{d}/.ok"):
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(registry("hifitime-4.3.1"), d)
        for p in glob.glob(f"{d}/src/**/*.rs", recursive=True):
            t = open(p).read()
            if "kani" in t:
                t = t.replace("cfg_attr(kani,", "cfg_attr(kani_off,")
                t = re.sub(r"cfg\((not\()?kani\b", r"cfg(\1kani_off", t)
                t = t.replace("not(kani)", "not(kani_off)")
                open(p, "w").write(t)
        open(f"{d}/.ok", "w").close()

def prepare():
    os.makedirs(B, exist_ok=True)
    with open(f"{B}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        overlay()
        patched()
    return B

if __name__ == "__main__":
    prepare()
