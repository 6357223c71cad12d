"""Extraction of the resolved program: runs the rustc driver over /repo's current source."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FF_REPO", "/repo")
DRIVER_DIR = os.path.join(VERIF, "driver")
DRIVER = os.path.join(DRIVER_DIR, "target", "release", "ffdriver")

READERS = ["asf", "cfb", "ebml", "exe", "id3v2", "mp4", "pdf", "rm", "sqlite3", "txt", "xml", "zip"]
ALL = tuple("reader-" + r for r in READERS)


class ToolError(Exception):
    pass


class BuildError(Exception):
    """The crate does not compile in this configuration."""

    def __init__(self, features, text):
        super().__init__(f"features={','.join(features) or '(none)'}")
        self.features, self.text = features, text


def _env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], check=True, capture_output=True,
                                  text=True, env=_env()).stdout.strip()
    return _sysroot


def ensure_driver():
    src = []
    for root, dirs, files in os.walk(DRIVER_DIR):
        dirs[:] = [d for d in dirs if d != "target"]
        src += [os.path.join(root, f) for f in files]
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= max(os.path.getmtime(f) for f in src):
        return
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--manifest-path",
                        os.path.join(DRIVER_DIR, "Cargo.toml"), "--target-dir", os.path.join(DRIVER_DIR, "target")],
                       capture_output=True, text=True, env=_env())
    if r.returncode != 0 or not os.path.exists(DRIVER):
        raise ToolError("driver build failed:\n" + r.stderr[-3000:])
    os.utime(DRIVER)


def _cargo(features, extra_env, toolchain="+nightly"):
    tmp = tempfile.mkdtemp(prefix="ffacts.")
    try:
        e = _env()
        e.update(extra_env)
        cmd = ["cargo", toolchain, "check", "--offline", "--lib", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
               "--target-dir", os.path.join(tmp, "t"), "--no-default-features", "--message-format=short"]
        if features:
            cmd += ["--features", ",".join(features)]
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=tmp)
        return r.returncode, r.stderr
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def extract(features):
    """Facts of the library crate compiled with exactly `features` (a tuple of feature names)."""
    ensure_driver()
    fd, out = tempfile.mkstemp(prefix="ffacts.", suffix=".json")
    os.close(fd)
    os.unlink(out)
    try:
        rc, err = _cargo(tuple(features), {
            "FF_FACTS_OUT": out,
            "RUSTC_WORKSPACE_WRAPPER": DRIVER,
            "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib") + ":" + os.environ.get("LD_LIBRARY_PATH", ""),
        })
        if rc != 0:
            if "error[" in err or "error: " in err and "could not compile" in err:
                raise BuildError(tuple(features), err[-4000:])
            raise ToolError("cargo failed:\n" + err[-4000:])
        if not os.path.exists(out):
            raise ToolError("driver wrote no facts:\n" + err[-2000:])
        with open(out) as f:
            d = json.load(f)
        d["asked_features"] = list(features)
        return d
    finally:
        if os.path.exists(out):
            os.unlink(out)


def extract_many(configs, workers=6):
    ensure_driver()
    sysroot()
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(extract, configs))
