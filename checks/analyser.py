"""Builds the MIR analyser and runs it on /repo's current source."""
import glob
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("T2D_REPO", "/repo")


class Failure(Exception):
    pass


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


class Analyser:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="t2d-")
        self.sr = sysroot()
        self.env = dict(os.environ, LD_LIBRARY_PATH=self.sr + "/lib", RUSTC_BOOTSTRAP="1")
        self.cmd = ""
        self.sysroots = {}

    def close(self):
        if self.dir.startswith(tempfile.gettempdir() + "/t2d-"):
            shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, cmd, **kw):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

    def build(self):
        jobs = [
            subprocess.Popen(["bash", VERIF + "/driver/build.sh", self.dir], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True),
        ]
        src = sorted(glob.glob(os.path.expanduser("~/.cargo/registry/src/*/paste-1.*/src/lib.rs")))
        if not src:
            raise Failure("the paste crate is not in the cargo cache")
        jobs.append(subprocess.Popen(
            ["rustc", "+nightly", "--edition", "2018", "--crate-name", "paste", "--crate-type", "proc-macro", "--cap-lints", "allow",
             src[-1], "--out-dir", self.dir], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for j in jobs:
            out, _ = j.communicate()
            if j.returncode:
                raise Failure("building the analyser failed:\n" + out[-3000:])

    def foreign_sysroot(self, target):
        """core for a target whose standard library is not installed (metadata only)"""
        if target in self.sysroots:
            return self.sysroots[target]
        root = f"{self.dir}/sysroot-{target}"
        lib = f"{root}/lib/rustlib/{target}/lib"
        os.makedirs(lib, exist_ok=True)
        core = self.sr + "/lib/rustlib/src/rust/library/core/src/lib.rs"
        common = ["rustc", "+nightly", "--edition", "2024", "--crate-type", "rlib", "--emit=metadata", "--target", target,
                  "-Zforce-unstable-if-unmarked", "-Zalways-encode-mir", "-Cpanic=abort", "--cap-lints", "allow", "--out-dir", lib]
        r = self.run(common + ["--crate-name", "core", "-Copt-level=1", core], env=self.env)
        if r.returncode:
            raise Failure("core for " + target + ":\n" + r.stdout[-3000:])
        cb = f"{self.dir}/cb.rs"
        with open(cb, "w") as f:
            f.write("#![feature(compiler_builtins)]\n#![compiler_builtins]\n#![no_std]\n")
        r = self.run(common + ["--crate-name", "compiler_builtins", "--sysroot", root, cb], env=self.env)
        if r.returncode:
            raise Failure("compiler_builtins for " + target + ":\n" + r.stdout[-3000:])
        self.sysroots[target] = root
        return root

    def analyse(self, job, target=None, features=("alloc",), timeout=840, seed=1, extra=None, conf="", must_build=False):
        """-> dict(obs=[(group,key,status,detail)], stats={}, functions=[])"""
        if conf == "python":
            return self.bindings(job, timeout, seed, extra)
        out = f"{self.dir}/out"
        os.makedirs(out, exist_ok=True)
        if conf == "noalloc":
            features = ()
        elif conf:
            target, features = conf, ()
        target = target or "x86_64-unknown-linux-gnu"
        cmd = [self.dir + "/t2danalyse", "--edition", "2021", "--crate-name", "texture2ddecoder", "--crate-type", "rlib",
               "--emit=metadata", "--target", target, "-Zforce-unstable-if-unmarked", "-Cpanic=abort", "-Coverflow-checks=on",
               "-Cdebug-assertions=off", "-Zmir-opt-level=0", "--cap-lints", "allow",
               "--extern", f"paste={self.dir}/libpaste.so", "--out-dir", out]
        for f in features:
            cmd += ["--cfg", f'feature="{f}"']
        if target != "x86_64-unknown-linux-gnu":
            cmd += ["--sysroot", self.foreign_sysroot(target)]
        cmd.append(REPO + "/src/lib.rs")
        env = dict(self.env, JOB=job, VERIF_SEED=str(seed))
        env.update(extra or {})
        self.cmd = f"JOB={job} t2danalyse --target {target} {REPO}/src/lib.rs"
        try:
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            text = (e.stdout or b"")
            text = text.decode() if isinstance(text, bytes) else text
            return self.parse(text, job, "the analysis ran out of time")
        why = None
        if "@END" not in r.stdout:
            why = "the analysis ended early: " + r.stderr[-1500:]
            if "error" in r.stderr and "@OB" not in r.stdout:
                if conf:
                    why = f"the crate does not compile in configuration {conf}: " + r.stderr[:600]
                    return {"obs": [("build", conf, "violated" if must_build else "undecided", why)], "stats": {}, "functions": []}
                raise Failure("the crate does not compile for analysis:\n" + r.stderr[-3000:])
        r = self.parse(r.stdout, job, why)
        if must_build:
            r["obs"].append(("build", "builds", "ok", ""))
        if conf:
            r["obs"] = [(g, f"{k} ({conf})", s, d) for g, k, s, d in r["obs"]]
        return r

    def bindings(self, job, timeout, seed, extra):
        """the Python bindings, a crate with dependencies: cargo compiles those, the analyser takes the crate itself"""
        py = next((p for p in ("/opt/vp/venv/bin/python", shutil.which("python3") or "") if os.path.exists(p)), "")
        env = dict(self.env, JOB=job, VERIF_SEED=str(seed), WRAP_CRATE="texture2ddecoder_rs", RUSTC_WORKSPACE_WRAPPER=self.dir + "/t2danalyse",
                   CARGO_TARGET_DIR=self.dir + "/py", CARGO_NET_OFFLINE="true", PYO3_PYTHON=py,
                   RUSTFLAGS="-Zmir-opt-level=0 -Zalways-encode-mir -Coverflow-checks=on -Cdebug-assertions=off --cap-lints allow")
        env.update(extra or {})
        for v in ("RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(v, None)
        # cargo may rewrite a lock file: give it a copy of the sources
        top = self.dir + "/pysrc"
        shutil.rmtree(top, ignore_errors=True)
        os.makedirs(top + "/bindings/python")
        shutil.copytree(REPO + "/src", top + "/src")
        shutil.copytree(REPO + "/bindings/python/src", top + "/bindings/python/src")
        for f in ("Cargo.toml", "Cargo.lock", "README.md"):
            for d in ("", "bindings/python/"):
                if os.path.exists(f"{REPO}/{d}{f}"):
                    shutil.copy(f"{REPO}/{d}{f}", f"{top}/{d}{f}")
        cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path", top + "/bindings/python/Cargo.toml"]
        try:
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return {"obs": [("job", job, "undecided", "the analysis ran out of time")], "stats": {}, "functions": []}
        why = None
        if "@END" not in r.stdout:
            why = "the bindings could not be analysed: " + r.stderr[-1500:]
        return self.parse(r.stdout, job, why)

    @staticmethod
    def parse(text, job, why):
        obs, stats, fns = [], {}, set()
        for line in text.splitlines():
            f = line.split("\t")
            if f[0] == "@OB" and len(f) == 5:
                obs.append((f[1], f[2], f[3], f[4]))
            elif f[0] == "@ST" and len(f) == 3:
                stats[f[1]] = stats.get(f[1], 0) + int(f[2])
            elif f[0] == "@FN" and len(f) == 2:
                fns.add(f[1])
        if why:
            obs.append(("job", job, "undecided", why))
        return {"obs": obs, "stats": stats, "functions": sorted(fns)}
