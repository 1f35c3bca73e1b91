"""Builds the trace driver from /repo's working tree, and the TLC overrides."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VP_REPO", "/repo")
TLA = "/opt/veriftools/tla"

GOENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
             GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"))


class BuildError(Exception):
    pass


def work():
    d = os.path.join(VERIF, ".work", "run.%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def java_classes():
    """The compiled overrides (compiled when their sources changed)."""
    src = sorted(glob.glob(os.path.join(VERIF, "java/vp/*.java")))
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
    out = os.path.join(VERIF, ".work", "cls-" + h)
    if not os.path.exists(os.path.join(out, "done")):
        tmp = tempfile.mkdtemp(dir=work())
        r = subprocess.run(["javac", "-nowarn", "-d", tmp, "-cp", TLA + "/tla2tools.jar"] + src,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("javac:\n" + r.stdout)
        open(os.path.join(tmp, "done"), "w").close()
        try:
            os.rename(tmp, out)
        except OSError:  # another check was faster
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def driver(race=False):
    """Path of the driver built from REPO's working tree, and the probes left out."""
    w = work()
    mod = os.path.join(w, "mod")
    shutil.rmtree(mod, ignore_errors=True)
    os.makedirs(mod)
    for d in ("exec", "aaavp"):
        shutil.copytree(os.path.join(VERIF, "harness", d), os.path.join(mod, d))
    req = re.search(r"require \((.*?)\)", open(os.path.join(REPO, "go.mod")).read(), re.S).group(1)
    with open(os.path.join(mod, "go.mod"), "w") as f:
        f.write("module vpexec\n\ngo 1.18\n\nrequire (\n\tgithub.com/proximax-storage/go-xpx-crypto v0.0.0\n"
                "\taaavp v0.0.0\n%s)\n\n"
                "replace github.com/proximax-storage/go-xpx-crypto => %s\nreplace aaavp => ./aaavp\n" % (req, REPO))
    with open(os.path.join(mod, "aaavp", "go.mod"), "w") as f:
        f.write("module aaavp\n\ngo 1.18\n")
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(mod, "go.sum"))
    files = sorted(glob.glob(os.path.join(VERIF, "harness/probes/*.go")))
    dropped = []
    out = os.path.join(w, "driver-race" if race else "driver")
    for _ in range(4):
        ov = os.path.join(mod, "overlay.json")
        json.dump({"Replace": {os.path.join(REPO, os.path.basename(f)): f for f in files}}, open(ov, "w"))
        cmd = ["go", "build", "-overlay", ov, "-o", out] + (
            # checkptr refuses a conversion in this version of x/crypto that touches nothing out of bounds
            ["-race", "-gcflags=golang.org/x/crypto/sha3=-d=checkptr=0"] if race else []) + ["./exec"]
        cmd[4:4] = ["-gcflags=github.com/proximax-storage/go-xpx-crypto=-e"]
        r = subprocess.run(cmd, cwd=mod, env=GOENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return out, dropped
        bad = sorted(set(re.findall(r"(vp_probe_\w+)\.go:\d+", r.stdout)) - {"vp_probe_0"})
        new = [f for f in files if os.path.basename(f)[:-3] in bad]
        if not new:
            break
        dropped += [os.path.basename(f)[9:-3] for f in new]
        files = [f for f in files if f not in new]
    raise BuildError("go build:\n" + r.stdout)


if __name__ == "__main__":
    print(java_classes())
    print(driver())
    print(driver(True))
