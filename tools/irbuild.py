"""Build a harness crate from /repo's working tree and lower it to the IR the engine reads."""
import glob, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
TOOLCHAIN = "stable"


def sysroot():
    return subprocess.check_output(["rustc", "+" + TOOLCHAIN, "--print", "sysroot"], text=True).strip()


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_BOOTSTRAP"):
        e.pop(k, None)
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise RuntimeError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd)[:300], r.stdout[-6000:]))
    return r.stdout


def build_engine():
    out = run(["cargo", "build", "--release", "--offline", "--manifest-path", VERIF + "/engine/Cargo.toml",
               "--target-dir", BUILD + "/engine"], env=env())
    return BUILD + "/engine/release/symir"


NOINL = re.compile(r"^define [^@]*\b(i1|i8) @")


def mark_noinline(path_in, path_out):
    lines = open(path_in).read().split("\n")
    alw = set()
    for l in lines:
        if l.startswith("attributes #") and "alwaysinline" in l:
            alw.add(l.split()[1])
    for idx, l in enumerate(lines):
        if l.startswith("define") and NOINL.match(l):
            i = l.index("@")
            j = l.index("(", i)
            d = 0
            for k in range(j, len(l)):
                if l[k] == "(":
                    d += 1
                elif l[k] == ")":
                    d -= 1
                    if d == 0:
                        break
            tail = l[k + 1:]
            m = re.search(r"#\d+", tail)
            if m and m.group(0) in alw:
                continue
            t2 = re.sub(r"^( (?:local_)?unnamed_addr)?", lambda m: (m.group(1) or "") + " noinline", tail, count=1)
            lines[idx] = l[:k + 1] + t2
    open(path_out, "w").write("\n".join(lines))


def narrow_wide(path):
    """core prints u128 by multiplying 256-bit integers with a reciprocal; such a
    multiply-and-shift is rewritten to the division it stands for, when that is
    exact for every 128-bit operand (checked here). The engine refuses functions
    with any other integer wider than 128 bits."""
    src = open(path).read()
    if " i256 " not in src:
        return
    lines, wide, pend = src.split("\n"), {}, {}
    for n, l in enumerate(lines):
        if l.startswith("define"):
            wide, pend = {}, {}
        if " i256" not in l:
            continue
        m = re.match(r"  (%\S+) = zext (?:nneg )?i128 (%\S+) to i256", l)
        if m:
            wide[m.group(1)] = m.group(2)
            lines[n] = ""
            continue
        m = re.match(r"  (%\S+) = mul (?:nuw )?(?:nsw )?i256 (%\S+), (\d+)$", l)
        if m and m.group(2) in wide:
            pend[m.group(1)] = (wide[m.group(2)], int(m.group(3)), n)
            continue
        m = re.match(r"  (%\S+) = lshr (?:exact )?i256 (%\S+), (\d+)$", l)
        if m and m.group(2) in pend:
            x, c, at = pend[m.group(2)]
            k = int(m.group(3))
            d = -(-(1 << k) // c)
            e = c * d - (1 << k)
            if k >= 128 and 0 <= e <= 1 << (k - 128) and c < 1 << 128:
                lines[at] = ""
                lines[n] = "  %s = udiv i128 %s, %d" % (m.group(1), x, d)
                wide[m.group(1)] = m.group(1)
            continue
        m = re.match(r"  (%\S+) = trunc (?:nuw )?(?:nsw )?i256 (%\S+) to i(\d+)$", l)
        if m and m.group(2) in wide and int(m.group(3)) <= 128:
            w = int(m.group(3))
            lines[n] = "  %s = add i128 %s, 0" % (m.group(1), wide[m.group(2)]) if w == 128 else "  %s = trunc i128 %s to i%d" % (m.group(1), wide[m.group(2)], w)
    open(path, "w").write("\n".join(lines))


def copy_alt(name):
    """/repo's sources under another package name, so that a second configuration can be linked beside the first"""
    dst = os.path.join(BUILD, "alt-" + name)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    shutil.copytree("/repo/src", dst + "/src")
    shutil.copy2("/repo/build.rs", dst + "/build.rs")
    t = open("/repo/Cargo.toml").read()
    t = re.sub(r'(?m)^name = "proc-macro2"$', 'name = "proc-macro2-%s"' % name, t, count=1)
    t = re.sub(r"(?ms)^\[(workspace|patch\.crates-io|dev-dependencies|package\.metadata[^\]]*|\[(?:bench|test|example|bin)\])\].*?(?=^\[|\Z)", "", t)
    open(dst + "/Cargo.toml", "w").write(t + "\n[workspace]\n")


def build_mock(tdir, unstable):
    """the stand-in for proc_macro, as an rlib"""
    src = open(VERIF + "/harness/mock/proc_macro.rs", "rb").read() + open(os.path.abspath(__file__), "rb").read()
    # cargo does not track --extern files: a changed stand-in gets a new path
    out = os.path.join(tdir, "mock-" + hashlib.sha256(src).hexdigest()[:12])
    os.makedirs(out, exist_ok=True)
    rlib = out + "/libproc_macro.rlib"
    run(["rustc", "+" + TOOLCHAIN, "--edition", "2021", "--crate-type", "rlib", "--crate-name", "proc_macro", "-C", "opt-level=1", "-C", "overflow-checks=on",
         "-C", "no-prepopulate-passes", "-C", "debuginfo=0", "-Awarnings", "-o", rlib, VERIF + "/harness/mock/proc_macro.rs"] + (["--cfg", "unstable"] if unstable else []), env=dict(env(), RUSTC_BOOTSTRAP="1"))
    return rlib


def build_harness(crate, config, features=(), rustflags=(), mock=False, bootstrap=False, alts=(), bare=False):
    """returns dict(module=.., binary=.., functions=.., seconds=..)"""
    t0 = time.time()
    src = os.path.join(VERIF, "harness", crate)
    tdir = os.path.join(BUILD, "h-%s-%s" % (crate, config))
    os.makedirs(tdir, exist_ok=True)
    for f in glob.glob(tdir + "/release/deps/*.ll"):
        os.remove(f)
    for a in alts:
        copy_alt(a)
    e = env()
    if mock:
        rustflags = list(rustflags) + ["--extern proc_macro=" + build_mock(tdir, bootstrap)]
    if bootstrap:
        e["RUSTC_BOOTSTRAP"] = "1"
    e["RUSTFLAGS"] = " ".join(["--emit=llvm-ir", "-C no-prepopulate-passes", "-C debuginfo=0", "-C no-vectorize-loops",
                               "-C no-vectorize-slp", "-Awarnings"] + list(rustflags))
    cmd = ["cargo", "build", "--offline", "--release", "--manifest-path", src + "/Cargo.toml", "--target-dir", tdir]
    if bare:
        cmd.append("--no-default-features")
    if features:
        cmd += ["--features", ",".join(features)]
    # the harness binary must always be relinked so that its IR exists
    # (and proc-macro2 recompiled: file times alone do not show every change of the tree)
    for f in glob.glob(tdir + "/release/.fingerprint/%s-*" % crate_name(src)) + glob.glob(tdir + "/release/.fingerprint/proc-macro2*"):
        shutil.rmtree(f)
    run(cmd, env=e)
    name = crate_name(src)
    lls = glob.glob(tdir + "/release/deps/%s-*.ll" % name)
    if len(lls) != 1:
        raise RuntimeError("expected one IR file for %s, found %r" % (name, lls))
    raw = lls[0]
    binary = tdir + "/release/" + name
    pub = ["main"]
    pat = re.compile(r"^define [^@]*@((?:h|vp)_\w+)\(")
    with open(raw) as fh:
        for l in fh:
            if l.startswith("define"):
                m = pat.match(l)
                if m:
                    pub.append(m.group(1))
    opt = os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/bin/opt")
    a, b, c = tdir + "/a.ll", tdir + "/b.ll", tdir + "/mod.ll"
    keep = [p for p in pub if p != "main"]
    run([opt, "-S", "-strip-debug", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(keep), raw, "-o", a])
    mark_noinline(a, b)
    F = "function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)"
    run([opt, "-S", "-strip-debug", "-passes=%s,cgscc(inline),%s,globaldce" % (F, F), "-inline-threshold=225", b, "-o", c])
    narrow_wide(c)
    for f in (raw, a, b):
        os.remove(f)
    return dict(module=c, binary=binary, entries=[p for p in keep if p.startswith("h_")], seconds=round(time.time() - t0, 2))


def crate_name(src):
    for l in open(src + "/Cargo.toml"):
        m = re.match(r'name\s*=\s*"([^"]+)"', l)
        if m:
            return m.group(1)


if __name__ == "__main__":
    print(build_engine())
    print(build_harness(sys.argv[1], sys.argv[2], features=[x for x in sys.argv[3:] if not x.startswith("-")], rustflags=[x for x in sys.argv[3:] if x.startswith("-")]))
