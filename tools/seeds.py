#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the specifications below (used while working on the checks;
no check reads /verif/seeded). Each: property, file, [(old, new)], needs, what_it_breaks, demo
kind and demo code."""
import difflib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}
def seed(id, prop, file, edits, needs, breaks, kind, demo, extra=None):
    SEEDS[id] = (prop, file, edits, needs, breaks, kind, demo, extra or {})

SH = '''#!/bin/bash
# Run in /repo. Builds demo.rs (which includes the modules of /repo it needs) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup PATH="/root/.cargo/bin:$PATH"
d=$(mktemp -d /tmp/demo-XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp -r "$here"/*.rs "$d/src/"
mv "$d/src/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
DEPS
EOF
sed -i "s|@REPO@|$repo|g" "$d"/src/*.rs "$d/Cargo.toml"
PRE
export CARGO_TARGET_DIR="$d/target"
cargo build --offline --quiet --manifest-path "$d/Cargo.toml" 2>"$d/log" || { tail -30 "$d/log"; echo "demo does not build"; exit 3; }
cd "$d" && RUN
'''
KINDS = {
 'core': ('anyhow = "1"\npath-absolutize = { version = "3", features = ["once_cell_cache"] }\nregex = { version = "1", default-features = false, features = ["std"] }\nserde = { version = "1", features = ["derive"] }\nserde_json = "1"',
   '''#![allow(dead_code, unused)]
#[path = "@REPO@/crates/jarl-core/src/description.rs"] mod description;
#[path = "@REPO@/crates/jarl-core/src/directive.rs"] mod directive;
#[path = "@REPO@/crates/jarl-core/src/error.rs"] mod error;
#[path = "@REPO@/crates/jarl-core/src/fs.rs"] mod fs;
mod loc { #[path = "@REPO@/crates/jarl-core/src/location.rs"] pub mod location; }
#[path = "@REPO@/crates/jarl-core/src/rule_set.rs"] mod rule_set;
#[path = "@REPO@/crates/jarl-core/src/rmd/extraction.rs"] mod extraction;
'''),
 'lsp': ('lsp-server = "0.7"\nlsp-types = "0.95"\ncrossbeam = "0.8"\nanyhow = "1"\ntracing = "0.1"\nserde = { version = "1", features = ["derive"] }\nserde_json = "1"',
   '''#![allow(dead_code, unused)]
#[path = "@REPO@/crates/jarl-lsp/src/client.rs"] mod client;
#[path = "@REPO@/crates/jarl-lsp/src/document.rs"] mod document;
'''),
 'cli': ('anyhow = "1"\ntracing = "0.1"\ntracing-subscriber = "0.3"',
   '''#![allow(dead_code, unused)]
#[path = "@REPO@/crates/jarl/src/logging.rs"] mod logging;
#[path = "@REPO@/crates/jarl/src/status.rs"] mod status;
'''),
 'xtask': ('anyhow = "1"\nxtask = { path = "xtask" }', '', '''mkdir -p "$d/xtask" && printf '[package]\\nname="xtask"\\nversion="0.0.0"\\nedition="2021"\\n[lib]\\npath="%s/xtask/src/lib.rs"\\n[dependencies]\\nanyhow="1"\\n' "$repo" > "$d/xtask/Cargo.toml"
# its editing of files and variables stays in a scratch directory, as an unprivileged user
mkdir -p "$d/scratch"; chmod 755 "$d"; chown 65534:65534 "$d/scratch"''', 'cd scratch && setpriv --reuid=65534 --regid=65534 --clear-groups ../target/debug/demo'),
 'zed': ('zed_jarl = { path = "zed" }\nzed_extension_api = { path = "api" }', '', '''mkdir -p "$d/zed" "$d/api/src" && mv "$d/src/api.rs" "$d/api/src/lib.rs"
printf '[package]\\nname="zed_extension_api"\\nversion="0.2.0"\\nedition="2021"\\n[dependencies]\\nserde_json="1"\\n' > "$d/api/Cargo.toml"
printf '[package]\\nname="zed_jarl"\\nversion="0.1.1"\\nedition="2021"\\n[lib]\\npath="%s/editors/zed/src/lib.rs"\\n[dependencies]\\nzed_extension_api = { path = "../api" }\\n' "$repo" > "$d/zed/Cargo.toml"
# it removes directories: in a scratch directory, as an unprivileged user
mkdir -p "$d/scratch"; chmod 755 "$d"; chown 65534:65534 "$d/scratch"''', 'cd scratch && setpriv --reuid=65534 --regid=65534 --clear-groups ../target/debug/demo'),
}
VS_SH = '''#!/bin/bash
# Run in /repo. Bundles the extension, and runs demo.cjs with stand-ins of the editor.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo-XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/ext/dist" "$d/home"
export NM=/opt/veriftools/node/node_modules HOME="$d/home"
node -e 'require(process.env.NM + "/esbuild").buildSync({ entryPoints: [process.argv[1]], outfile: process.argv[2], bundle: true, platform: "node", format: "cjs", packages: "external", logLevel: "error", tsconfigRaw: {} })' "$PWD/editors/code/src/extension.ts" "$d/ext/dist/extension.js" || { echo "demo does not build"; exit 3; }
cd "$d" && timeout 60 node "$here/demo.cjs" "$d"
'''
VS_STUB = r'''"use strict";
// The little of the editor, of its language client and of its queue that the extension uses.
const Module = require("module"), fs = require("fs"), path = require("path"), assert = require("assert");
const dir = process.argv[2];
const S = { events: [], user: {}, workspace: {}, folders: undefined, byFolder: {}, trusted: true, start: async () => {}, stop: async () => {} };
class PQueue {
	constructor(o = {}) { this.max = o.concurrency ?? Infinity; this.jobs = []; this.running = 0; }
	add(f) { return new Promise((ok, no) => { this.jobs.push([f, ok, no]); this.next(); }); }
	next() {
		while (this.running < this.max && this.jobs.length) {
			const [f, ok, no] = this.jobs.shift();
			this.running++;
			Promise.resolve().then(f).then(ok, no).finally(() => { this.running--; this.next(); });
		}
	}
}
let clients = 0;
class LanguageClient {
	constructor(id, name, server, options) { this.n = ++clients; this.server = server; this.options = options; }
	async start() { S.events.push("start " + this.n + " " + path.relative(dir, this.server.command)); S.init = this.options.initializationOptions; await S.start(); S.events.push("started " + this.n); }
	async stop() { S.events.push("stop " + this.n); await S.stop(); S.events.push("stopped " + this.n); }
	onNotification() {}
}
class EventEmitter { constructor() { this.event = () => ({ dispose() {} }); } fire() {} dispose() {} }
const config = (ns, scope) => {
	const at = (scope && (scope.uri || scope) && (scope.uri || scope).fsPath) || "";
	const values = (k) => ({ globalValue: S.user[k], workspaceValue: S.workspace[k], workspaceFolderValue: (S.byFolder[at] || {})[k] });
	return {
		inspect: (k) => values(k),
		get: (k, d) => { const v = values(k); return v.workspaceFolderValue ?? v.workspaceValue ?? v.globalValue ?? d; },
	};
};
const uri = (p) => ({ fsPath: p, path: p, scheme: "file", toString: () => "file://" + p });
const commands = {};
const vscode = {
	window: { createOutputChannel: () => ({ appendLine() {}, show() {}, dispose() {} }), showErrorMessage() {} },
	workspace: { get workspaceFolders() { return S.folders && S.folders.map((p, index) => ({ uri: uri(p), name: path.basename(p), index })); }, get isTrusted() { return S.trusted; }, getConfiguration: config, fs: {}, onDidChangeConfiguration() {} },
	commands: { registerCommand: (n, f) => { commands[n] = f; return { dispose() {} }; } },
	Uri: { file: uri }, EventEmitter, extensions: { getExtension() {} }, Disposable: class {},
};
const lc = { LanguageClient, RequestType: class {}, NotificationType: class {}, RequestType0: class {}, NotificationType0: class {}, ResponseError: class extends Error {}, State: {} };
const fsExtra = { ...fs.promises, pathExists: async (p) => fs.existsSync(p) };
const stubs = { vscode, "vscode-languageclient/node": lc, "vscode-languageclient": lc, "p-queue": { __esModule: true, default: PQueue }, "fs-extra": fsExtra,
	which: async (n) => { for (const p of (process.env.PATH || "").split(":")) if (fs.existsSync(path.join(p, n))) return path.join(p, n); return null; } };
const any = (o) => new Proxy(o, { get: (t, k) => (k in t ? t[k] : () => ({ dispose() {} })) });
for (const k of ["window", "workspace", "commands"]) vscode[k] = any(vscode[k]);
const load = Module._load;
Module._load = (n, ...a) => (n in stubs ? stubs[n] : load(n, ...a));
const put = (p) => { const f = path.join(dir, p); fs.mkdirSync(path.dirname(f), { recursive: true }); fs.writeFileSync(f, "", { mode: 0o755 }); return f; };
process.on("unhandledRejection", () => {});
const wait = (ms = 20) => new Promise((r) => setTimeout(r, ms));
const activate = () => { const e = require(path.join(dir, "ext/dist/extension.js")); const x = e.activate({ subscriptions: [], workspaceState: { get() {}, update() {} } }); return [e, x.__private.ctx.lsp]; };
const run = (f) => f().then(() => process.exit(0), (e) => { console.log(e); process.exit(1); });
module.exports = { S, put, wait, activate, run, commands, assert, dir, fs, path };
'''
# The whole program, over stand-ins of the dependencies the sandbox does not have.
PROGRAM_SH = '''#!/bin/bash
# Run in /repo. Builds the program over the stand-ins in standins.tgz and runs case.py with it,
# as an unprivileged user in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup PATH="/root/.cargo/bin:$PATH"
d=$(mktemp -d /tmp/demo-XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
tar -xzf "$here/standins.tgz" -C "$d" && mkdir "$d/build" "$d/scratch" && ln -s "$repo" "$d/build/repo" || exit 3
export CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
cargo build --offline --quiet --bin jarl --manifest-path "$d/subject/full-cli/Cargo.toml" 2>"$d/log" || { grep -A12 ^error "$d/log" | head -40; echo "demo does not build"; exit 3; }
cp "$here/case.py" "$d/case.py"
chmod 755 "$d"; chown 65534:65534 "$d/scratch"
cd "$d/scratch" && env HOME="$d/scratch/home" XDG_CONFIG_HOME="$d/scratch/home" JARL="$d/target/debug/jarl" setpriv --reuid=65534 --regid=65534 --clear-groups timeout 60 python3 ../case.py
'''
CASE = '''import json, os, subprocess
def put(path, text):
    if os.path.dirname(path): os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w", newline="").write(text)
def get(path):
    return open(path, newline="").read()
def jarl(*args, cwd="."):
    r = subprocess.run([os.environ["JARL"], *args], cwd=cwd, capture_output=True, text=True, timeout=30)
    return r.returncode, r.stdout, r.stderr
def found(*args, cwd="."):
    code, out, err = jarl("check", *args, "--output-format", "json", cwd=cwd)
    return [(d["message"]["name"], os.path.basename(d["filename"])) for d in json.loads(out)["diagnostics"]]
'''
def standins():
    import gzip, io, subprocess, tarfile
    names = subprocess.run(['git', '-C', ROOT, 'ls-files', 'standins', 'subject/full-core', 'subject/full-cli', 'subject/full-lsp'], capture_output=True, text=True).stdout.split()
    raw = io.BytesIO()
    with tarfile.open(fileobj=raw, mode='w') as t:
        for n in names:
            i = tarfile.TarInfo(n); data = open(os.path.join(ROOT, n), 'rb').read(); i.size = len(data); i.mode = 0o644
            t.addfile(i, io.BytesIO(data))
    return gzip.compress(raw.getvalue(), mtime=0)
def main():
    for f in sorted(os.listdir(os.path.join(ROOT, 'tools', 'seedsrc'))):
        if f.endswith('.py'):
            exec(open(os.path.join(ROOT, 'tools', 'seedsrc', f)).read(), globals())
    only = sys.argv[1:]
    for id, (prop, file, edits, needs, breaks, kind, demo, extra) in SEEDS.items():
        if only and id not in only: continue
        files = file if isinstance(file, list) else [file]
        edits_by = edits if isinstance(file, list) else [edits]
        diff = ''
        for file, eds in zip(files, edits_by):
            src = open('/repo/' + file).read()
            new = src
            for old, rep in eds:
                assert new.count(old) == 1, (id, new.count(old), old)
                new = new.replace(old, rep)
            diff += ''.join(difflib.unified_diff(src.splitlines(True), new.splitlines(True), 'a/' + file, 'b/' + file))
        d = os.path.join(ROOT, 'seeded', id)
        os.makedirs(d, exist_ok=True)
        if kind in ('program', 'python'):
            w = lambda n, t: open(os.path.join(d, n), 'w').write(t)
            w('patch.diff', diff); w('demo.sh', PROGRAM_SH if kind == 'program' else '#!/bin/bash\n# Run in /repo.\npython3-vt "$(cd "$(dirname "$0")" && pwd)/case.py"\n'); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            if kind == 'program': open(os.path.join(d, 'standins.tgz'), 'wb').write(standins())
            w('case.py', (CASE if kind == 'program' else '') + demo.strip() + '\n')
            w('meta.json', json.dumps({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, indent=1) + '\n')
            continue
        if kind == 'vscode':
            w = lambda n, t: open(os.path.join(d, n), 'w').write(t)
            w('patch.diff', diff); w('demo.sh', VS_SH); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            w('stubs.cjs', VS_STUB)
            w('demo.cjs', '"use strict";\nconst { S, put, wait, activate, run, commands, assert, dir, fs, path } = require("./stubs.cjs");\n' + demo.strip() + '\n')
            w('meta.json', json.dumps({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, indent=1) + '\n')
            continue
        k = KINDS[kind]
        sh = SH.replace('DEPS', k[0]).replace('\nPRE\n', '\n' + (k[2] if len(k) > 2 else '') + '\n').replace('RUN', k[3] if len(k) > 3 else 'target/debug/demo')
        w = lambda n, t: open(os.path.join(d, n), 'w').write(t)
        w('patch.diff', diff); w('demo.sh', sh); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        w('demo.rs', k[1] + demo.strip() + '\n')
        for n, t in extra.items(): w(n, t)
        w('meta.json', json.dumps({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, indent=1) + '\n')
main()
