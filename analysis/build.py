"""Build the exporter and run it over /repo's current working tree.

export() returns the directory with <crate>.main.json files, one per analysed crate.  Nothing is
written outside /verif/.build; /repo is only read (through symlinks)."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CRATES = ["bin_prot", "versioned", "bin_prot_checker", "bin_prot_layout_reader",
          "mina_serialization_types_macros", "witness", "witness_conv"]
PKGS = ["bin-prot", "versioned", "bin_prot_checker", "bin-prot-layout-reader",
        "mina-serialization-types-macros", "witness", "witness_conv"]
MEMBERS = ["protocol/bin-prot", "protocol/bin_prot_checker", "protocol/serialization-types-macros",
           "protocol/versioned", "apps/bin-prot-layout-reader", "witness", "witness_conv"]


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR",
              "RUSTUP_TOOLCHAIN", "RUSTC", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def _run(cmd, env, cwd, what):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (what, p.stdout[-6000:]))
    return p.stdout


def _files(root, exts=(".rs", ".toml", ".lock", ".json", ".md")):
    out = []
    for d, ds, fs in os.walk(root, followlinks=False):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def _hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def build_mirx():
    src = os.path.join(VERIF, "mirx")
    tgt = os.path.join(BUILD, "mirx-target")
    env = _env()
    env["CARGO_TARGET_DIR"] = tgt
    _run(["cargo", "+nightly", "build", "--release", "--offline"], env, src, "building mirx")
    return os.path.join(tgt, "release", "mirx")


def export():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _export()


def _export():
    out = os.path.join(BUILD, "out")
    srcs = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "apps/Cargo.lock")]
    for m in ("protocol/bin-prot", "protocol/bin_prot_checker", "protocol/serialization-types-macros",
              "protocol/versioned", "apps/bin-prot-layout-reader"):
        srcs += _files(os.path.join(REPO, m))
    srcs += _files(os.path.join(VERIF, "mirx", "src")) + _files(os.path.join(VERIF, "witness")) + _files(os.path.join(VERIF, "witness_conv"))
    stamp = _hash(srcs)
    sf = os.path.join(out, "stamp")
    if os.path.exists(sf) and open(sf).read() == stamp and \
            all(os.path.exists(os.path.join(out, c + ".main.json")) for c in CRATES[:-1]):
        return out
    mirx = build_mirx()
    ws = os.path.join(BUILD, "ws")
    os.makedirs(os.path.join(ws, "apps"), exist_ok=True)
    for link, dst in ((os.path.join(ws, "protocol"), os.path.join(REPO, "protocol")),
                      (os.path.join(ws, "apps/bin-prot-layout-reader"), os.path.join(REPO, "apps/bin-prot-layout-reader"))):
        if os.path.islink(link):
            os.unlink(link)
        os.symlink(dst, link)
    for n in ("witness", "witness_conv"):
        w = os.path.join(ws, n)
        if os.path.exists(w):
            shutil.rmtree(w)
        shutil.copytree(os.path.join(VERIF, n), w)
    shutil.copy(os.path.join(REPO, "apps/Cargo.lock"), os.path.join(ws, "Cargo.lock"))
    text = open(os.path.join(REPO, "Cargo.toml")).read()
    new = "members = [" + ", ".join('"%s"' % m for m in MEMBERS) + "]"
    text, n = re.subn(r"^members\s*=\s*\[[^\]]*\]", new, text, count=1, flags=re.M)
    if n != 1:
        raise BuildError("no members list in /repo/Cargo.toml")
    open(os.path.join(ws, "Cargo.toml"), "w").write(text)

    env = _env()
    sysroot = _run(["rustc", "+nightly", "--print", "sysroot"], env, ws, "rustc").strip()
    tgt = os.path.join(BUILD, "target")
    fp = os.path.join(tgt, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if re.sub(r"-[0-9a-f]{16}$", "", d) in PKGS:
                shutil.rmtree(os.path.join(fp, d))
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    env.update({
        "RUSTUP_TOOLCHAIN": "1.70.0",  # its cargo reads the offline registry index
        "RUSTC": os.path.join(sysroot, "bin", "rustc"),
        "RUSTC_WORKSPACE_WRAPPER": mirx,
        "LD_LIBRARY_PATH": os.path.join(sysroot, "lib"),
        "RUSTFLAGS": "--cap-lints allow -Zallow-features=proc_macro_diagnostic -Zalways-encode-mir",
        "CARGO_TARGET_DIR": tgt,
        "MIRX_OUT": out,
        "MIRX_CRATES": ",".join(CRATES),
        "CARGO_INCREMENTAL": "0",
    })
    _run(["cargo", "check", "--offline", "--workspace", "--all-features", "--exclude", "witness_conv"], env, ws,
         "cargo check of the workspace")
    try:
        _run(["cargo", "check", "--offline", "--all-features", "-p", "witness_conv"], env, ws, "witness_conv")
    except BuildError as e:
        # the generated conversions do not compile: decided by the check that claims them
        open(os.path.join(out, "witness_conv.err"), "w").write(str(e))
    for c in CRATES[:-1]:
        if not os.path.exists(os.path.join(out, c + ".main.json")):
            raise BuildError("no export for crate " + c)
    open(sf, "w").write(stamp)
    return out


# crates of /repo whose dependencies are not available here, type-checked against stand-ins for those
STANDIN = {
    "node": {
        "src": "standins", "out": "outn", "ws": "wsn", "target": "targetn",
        "links": (("mina-merkle/repo", "merkle"), ("mina-consensus/repo", "consensus")),
        "members": ["mina-merkle", "mina-consensus", "witness_node"],
        "crates": ["mina_merkle", "mina_consensus", "witness_node", "mina_rs_base", "proof_systems"],
        "extra": (), "root": "witness_node",
    },
    "wire": {
        "src": "standins_wire", "out": "outw", "ws": "wsw", "target": "targetw",
        "links": (("protocol", "protocol"),),
        "members": ["protocol/bin-prot", "protocol/serialization-types-macros", "protocol/versioned", "mina-serialization-types", "witness_wire"],
        "crates": ["bin_prot", "versioned", "mina_serialization_types", "witness_wire", "base64", "bs58", "proof_systems"],
        "extra": ("protocol/bin-prot/src", "protocol/versioned/src", "protocol/serialization-types-macros/src",
                  "protocol/serialization-types/src", "protocol/layouts"),
        "root": "witness_wire",
    },
    "base": {
        "src": "standins_base", "out": "outb", "ws": "wsb", "target": "targetb",
        "links": (("protocol", "protocol"), ("crypto", "crypto"), ("base", "base"), ("proof-systems-shim", "proof-systems-shim")),
        "members": ["protocol/bin-prot", "protocol/serialization-types-macros", "protocol/versioned", "mina-serialization-types",
                    "proof-systems", "mina-crypto", "mina-rs-base", "witness_base"],
        "crates": ["bin_prot", "versioned", "mina_serialization_types", "witness_base", "mina_rs_base", "mina_crypto", "proof_systems",
                   "mina_hasher", "mina_signer", "mina_curves", "o1_utils", "ark_ff", "ark_ec", "bitvec", "blake2", "sha2", "base64", "bs58", "time"],
        "extra": ("protocol/bin-prot/src", "protocol/versioned/src", "protocol/serialization-types-macros/src",
                  "protocol/serialization-types/src", "crypto/src", "base/src", "proof-systems-shim/src"),
        "root": "witness_base",
    },
    "secrets": {
        "src": "standins_secrets", "out": "outs", "ws": "wss", "target": "targets",
        "links": (("mina-secrets/repo", "secrets"),),
        "members": ["mina-secrets", "witness_secrets"],
        "crates": ["mina_secrets", "witness_secrets", "argon2", "xsalsa20poly1305", "bs58", "proof_systems"],
        "extra": ("secrets/src",), "root": "witness_secrets",
    },
}


def export_standin(kind):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _export_standin(STANDIN[kind])


def _export_standin(c):
    out = os.path.join(BUILD, c["out"])
    src = os.path.join(VERIF, c["src"])
    srcs = [os.path.join(REPO, "apps/Cargo.lock"), os.path.join(REPO, "Cargo.toml")]
    for d in c["extra"] or [d for _, d in c["links"]]:
        srcs += _files(os.path.join(REPO, d))
    srcs += _files(os.path.join(VERIF, "mirx", "src")) + _files(src)
    stamp = _hash(srcs)
    sf = os.path.join(out, "stamp")
    if os.path.exists(sf) and open(sf).read() == stamp and os.path.exists(os.path.join(out, c["root"] + ".main.json")):
        return out
    mirx = build_mirx()
    ws = os.path.join(BUILD, c["ws"])
    if os.path.isdir(ws):
        shutil.rmtree(ws)
    shutil.copytree(src, ws)
    for n, d in c["links"]:
        os.symlink(os.path.join(REPO, d), os.path.join(ws, n))
    shutil.copy(os.path.join(REPO, "apps/Cargo.lock"), os.path.join(ws, "Cargo.lock"))
    text = open(os.path.join(REPO, "Cargo.toml")).read()
    new = "members = [" + ", ".join('"%s"' % m for m in c["members"]) + "]"
    text, n = re.subn(r"^members\s*=\s*\[[^\]]*\]", new, text, count=1, flags=re.M)
    if n != 1:
        raise BuildError("no members list in /repo/Cargo.toml")
    open(os.path.join(ws, "Cargo.toml"), "w").write(text)
    env = _env()
    sysroot = _run(["rustc", "+nightly", "--print", "sysroot"], env, ws, "rustc").strip()
    tgt = os.path.join(BUILD, c["target"])
    fp = os.path.join(tgt, "debug", ".fingerprint")
    names = {x.replace("-", "_") for x in c["crates"]} | {os.path.basename(m).replace("-", "_") for m in c["members"]} | set(
        d.replace("-", "_") for d in os.listdir(src))
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if re.sub(r"-[0-9a-f]{16}$", "", d).replace("-", "_") in names:
                shutil.rmtree(os.path.join(fp, d))
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    env.update({
        "RUSTUP_TOOLCHAIN": "1.70.0",
        "RUSTC": os.path.join(sysroot, "bin", "rustc"),
        "RUSTC_WORKSPACE_WRAPPER": mirx,
        "LD_LIBRARY_PATH": os.path.join(sysroot, "lib"),
        "RUSTFLAGS": "--cap-lints allow -Zallow-features=proc_macro_diagnostic -Zalways-encode-mir",
        "CARGO_TARGET_DIR": tgt,
        "MIRX_OUT": out,
        "MIRX_CRATES": ",".join(c["crates"]),
        "CARGO_INCREMENTAL": "0",
    })
    _run(["cargo", "check", "--offline", "--workspace"], env, ws, "cargo check against the stand-ins")
    open(sf, "w").write(stamp)
    return out


if __name__ == "__main__":
    try:
        print(export())
    except BuildError as e:
        print(e)
        sys.exit(2)
