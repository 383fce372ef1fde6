"""Client of the MIR server: starts `cargo +nightly check` on /repo with the driver as
RUSTC_WORKSPACE_WRAPPER and asks it for the type-checked program."""
import json, os, shutil, socket, subprocess, sys, tempfile, threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class BuildError(Exception):
    pass


class Server:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.tmp = tempfile.mkdtemp(prefix="mirserve")
        self.proc = None
        self.cache = {}
        try:
            self._start()
        except BaseException:
            self.close()
            raise

    def _start(self):
        env = {k: v for k, v in os.environ.items()
               if not (k.startswith("RUST") and k not in ("RUSTUP_HOME",)) and not k.startswith("CARGO_")
               or k == "CARGO_HOME"}
        env["PATH"] = env.get("PATH", "") + ":/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin"
        env.setdefault("HOME", "/root")
        drv = os.path.join(HERE, "driver", "target", "mirserve")
        if not os.path.exists(drv):
            subprocess.run(["bash", os.path.join(HERE, "driver", "build.sh")], check=True,
                           stdout=sys.stderr, env=env)
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env, check=True,
                                 capture_output=True, text=True).stdout.strip()
        env["LD_LIBRARY_PATH"] = sysroot + "/lib"
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        sp = os.path.join(self.tmp, "s")
        env["SRV_SOCK"] = sp
        ls = socket.socket(socket.AF_UNIX)
        ls.bind(sp)
        ls.listen(1)
        log = open(os.path.join(self.tmp, "log"), "w")
        self.proc = subprocess.Popen(
            ["cargo", "+nightly", "check", "--offline", "--locked", "-q",
             "--manifest-path", os.path.join(self.repo, "Cargo.toml"),
             "--target-dir", os.path.join(self.tmp, "t")],
            env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log, cwd=self.tmp)
        ls.settimeout(0.2)
        waited = 0
        while True:
            try:
                c, _ = ls.accept()
                break
            except socket.timeout:
                waited += 0.2
                if self.proc.poll() is not None or waited > 300:
                    raise BuildError("the crate did not reach analysis:\n" +
                                     open(os.path.join(self.tmp, "log")).read()[-4000:])
        c.settimeout(600)
        self.c = c
        self.f = c.makefile("rwb")

    def q(self, **kw):
        key = json.dumps(kw, sort_keys=True)
        if key in self.cache:
            return self.cache[key]
        self.f.write(key.encode() + b"\n")
        self.f.flush()
        line = self.f.readline()
        if not line:
            raise BuildError("the MIR server went away:\n" +
                             open(os.path.join(self.tmp, "log")).read()[-4000:])
        r = json.loads(line)
        if isinstance(r, dict) and "raw" in r:
            r = json.loads(r["raw"])
        self.cache[key] = r
        return r

    def close(self):
        try:
            self.f.write(b'{"q":"quit"}\n')
            self.f.flush()
        except Exception:
            pass
        if self.proc:
            try:
                self.proc.wait(30)
            except Exception:
                self.proc.kill()
        shutil.rmtree(self.tmp, ignore_errors=True)


if __name__ == "__main__":
    s = Server()
    try:
        for a in sys.argv[1:]:
            print(json.dumps(s.q(**json.loads(a)), indent=1))
    finally:
        s.close()
