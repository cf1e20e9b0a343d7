// driver.cjs BUNDLE: runs the bundled extension against stand-ins of the editor and of the
// language client. A case per line on stdin, what happened per line on stdout.
"use strict";
const Module = require("module");
const fs = require("fs");
const path = require("path");
const readline = require("readline");

const BUNDLE = process.argv[2];
const NODE = "/opt/veriftools/node/node_modules/";
const picomatch = require(NODE + "picomatch");
const turn = () => new Promise((r) => setImmediate(r));
const turns = async (n) => {
	for (let i = 0; i < n; i++) await turn();
};

let S; // the state of the case being run

// ---- the queue
class PQueue {
	constructor(o = {}) {
		this.concurrency = o.concurrency ?? Infinity;
		this.waiting = [];
		this.running = 0;
		this.isPaused = o.autoStart === false;
		this.idle = [];
	}
	get size() {
		return this.waiting.length;
	}
	get pending() {
		return this.running;
	}
	add(f, o = {}) {
		return new Promise((resolve, reject) => {
			const job = { f, resolve, reject, priority: o.priority ?? 0 };
			let i = this.waiting.length;
			while (i > 0 && this.waiting[i - 1].priority < job.priority) i--;
			this.waiting.splice(i, 0, job);
			this.next();
		});
	}
	addAll(fs, o) {
		return Promise.all(fs.map((f) => this.add(f, o)));
	}
	next() {
		while (!this.isPaused && this.running < this.concurrency && this.waiting.length > 0) {
			const job = this.waiting.shift();
			this.running++;
			(async () => {
				try {
					job.resolve(await job.f({}));
				} catch (e) {
					job.reject(e);
				} finally {
					this.running--;
					if (this.running === 0 && this.waiting.length === 0) this.idle.splice(0).forEach((r) => r());
					this.next();
				}
			})();
		}
	}
	start() {
		this.isPaused = false;
		this.next();
		return this;
	}
	pause() {
		this.isPaused = true;
	}
	clear() {
		this.waiting = [];
	}
	async onIdle() {
		if (this.running || this.waiting.length) await new Promise((r) => this.idle.push(r));
	}
	onEmpty() {
		return this.onIdle();
	}
}

// ---- the file system
const fsExtra = new Proxy(
	{
		pathExists: (p) => fs.promises.access(p).then(() => true, () => false),
		pathExistsSync: fs.existsSync,
	},
	{ get: (t, k) => t[k] ?? (k === "__esModule" ? undefined : (fs.promises[k] ?? fs[k])) },
);

// ---- the language client
class LanguageClient {
	constructor(...a) {
		// (id, name, server, client, force) or (name, server, client, force)
		if (typeof a[1] !== "string") a.unshift(a[0]);
		[this.id, this.name, this.server, this.options] = a;
		this.n = S.clients++;
		this.state = "initial";
	}
	outcome() {
		const l = S.case.outcomes;
		const [ok, wait] = l.length ? l[S.calls % l.length] : [true, 0];
		S.calls++;
		return [ok, wait];
	}
	async start() {
		if (this.state !== "initial") {
			S.trace.push({ again: this.n });
			return;
		}
		const so = this.server.run ?? this.server;
		const [ok, wait] = this.outcome();
		this.state = "starting";
		S.trace.push({
			launch: this.n,
			command: so.command,
			args: so.args ?? [],
			init: this.options.initializationOptions ?? null,
			docs: S.case.docs.map((d) => (this.options.documentSelector ?? []).some((f) => matches(f, d))),
		});
		await turns(wait);
		if (ok) {
			this.state = "running";
			S.trace.push({ started: this.n });
		} else {
			this.state = "failed";
			S.trace.push({ failed: this.n });
			throw new Error("the server does not start");
		}
	}
	async stop() {
		if (this.state === "initial" || this.state === "stopped") return;
		if (this.state !== "running") {
			if (this.state === "failed") throw new Error("Client is not running and can't be stopped");
			S.trace.push({ stop_while: this.state });
			return;
		}
		const [ok, wait] = this.outcome();
		this.state = "stopping";
		S.trace.push({ stop: this.n });
		await turns(wait);
		if (ok) {
			this.state = "stopped";
			S.trace.push({ stopped: this.n });
		} else {
			this.state = "lost";
			S.trace.push({ lost: this.n });
			throw new Error("Stopping the server timed out");
		}
	}
	async dispose() {
		return this.stop();
	}
	async restart() {
		await this.stop();
		this.state = "initial";
		return this.start();
	}
	isRunning() {
		return this.state === "running";
	}
	needsStop() {
		return this.state === "running" || this.state === "starting";
	}
	onNotification() {
		return { dispose() {} };
	}
	onRequest() {
		return { dispose() {} };
	}
	onDidChangeState() {
		return { dispose() {} };
	}
	sendRequest() {
		return Promise.resolve(null);
	}
	sendNotification() {
		return Promise.resolve();
	}
	registerFeature() {}
}

function matches(f, d) {
	if (typeof f === "string") return f === d.language;
	if (f.language !== undefined && f.language !== "*" && f.language !== d.language) return false;
	if (f.scheme !== undefined && f.scheme !== "*" && f.scheme !== d.scheme) return false;
	if (f.pattern !== undefined) {
		const p = typeof f.pattern === "string" ? f.pattern : f.pattern.pattern;
		if (!picomatch(p, { dot: true })(d.path)) return false;
	}
	return true;
}

class Type {
	constructor(method) {
		this.method = method;
	}
}
const languageclient = {
	LanguageClient,
	NotificationType: Type,
	NotificationType0: Type,
	RequestType: Type,
	RequestType0: Type,
	ResponseError: class ResponseError extends Error {},
	State: { Stopped: 1, Running: 2, Starting: 3 },
	TransportKind: { stdio: 0, ipc: 1, pipe: 2, socket: 3 },
	RevealOutputChannelOn: { Info: 1, Warn: 2, Error: 3, Never: 4 },
	ErrorAction: { Continue: 1, Shutdown: 2 },
	CloseAction: { DoNotRestart: 1, Restart: 2 },
};

// ---- the editor
class Uri {
	constructor(scheme, p) {
		this.scheme = scheme;
		this.path = p;
		this.authority = this.query = this.fragment = "";
	}
	get fsPath() {
		return this.path;
	}
	toString() {
		return this.scheme + "://" + this.path;
	}
	static file(p) {
		return new Uri("file", p);
	}
	static parse(s) {
		const m = /^([a-z]+):(?:\/\/)?(.*)$/.exec(s);
		return m ? new Uri(m[1], m[2]) : new Uri("file", s);
	}
	static joinPath(u, ...l) {
		return new Uri(u.scheme, path.posix.join(u.path, ...l));
	}
}
class EventEmitter {
	constructor() {
		this.listeners = new Set();
		this.event = (f, self) => {
			const g = self ? f.bind(self) : f;
			this.listeners.add(g);
			return { dispose: () => this.listeners.delete(g) };
		};
	}
	fire(x) {
		for (const f of [...this.listeners]) f(x);
	}
	dispose() {
		this.listeners.clear();
	}
}
class Disposable {
	constructor(f) {
		this.f = f;
	}
	dispose() {
		this.f?.();
	}
	static from(...l) {
		return new Disposable(() => l.forEach((d) => d.dispose()));
	}
}
const noEvent = () => ({ dispose() {} });
const loose = (o) =>
	new Proxy(o, {
		get: (t, k) => (k in t || typeof k === "symbol" || k === "then" || k === "__esModule" ? t[k] : /^on[A-Z]/.test(k) ? noEvent : (..._) => Promise.resolve(undefined)),
	});

function configuration(section, scope) {
	const w = S.world;
	const uri = scope?.uri ?? scope;
	const at = uri ? w.folders.findIndex((f) => f.path === uri.fsPath) : -1;
	const name = (k) => (section ? section + "." + k : k);
	const layers = (k) => {
		const n = name(k);
		return {
			key: n,
			defaultValue: S.defaults[n],
			globalValue: w.user[n],
			workspaceValue: w.workspace[n],
			workspaceFolderValue: at >= 0 ? w.folders[at].settings[n] : undefined,
		};
	};
	const own = (x) => (x === null ? undefined : x);
	return {
		inspect: (k) => {
			const l = layers(k);
			return Object.values(l).slice(1).every((v) => v === undefined) ? undefined : l;
		},
		get: (k, d) => {
			const l = layers(k);
			const v = own(l.workspaceFolderValue) ?? own(l.workspaceValue) ?? own(l.globalValue);
			return v !== undefined ? v : l.defaultValue !== undefined ? l.defaultValue : d;
		},
		has: (k) => Object.values(layers(k)).slice(1).some((v) => v !== undefined),
		update: async () => {},
	};
}

const channel = () => loose({ append() {}, appendLine() {}, show() {}, clear() {}, replace() {}, hide() {}, dispose() {} });
const vscode = loose({
	Uri,
	EventEmitter,
	Disposable,
	ConfigurationTarget: { Global: 1, Workspace: 2, WorkspaceFolder: 3 },
	ViewColumn: { One: 1, Two: 2 },
	ProgressLocation: { SourceControl: 1, Window: 10, Notification: 15 },
	StatusBarAlignment: { Left: 1, Right: 2 },
	workspace: loose({
		get isTrusted() {
			return S.world.trusted;
		},
		get workspaceFolders() {
			const l = S.world.folders;
			return l.length ? l.map((f, index) => ({ uri: Uri.file(f.path), name: path.basename(f.path), index })) : S.world.none ? undefined : [];
		},
		textDocuments: [],
		getConfiguration: configuration,
		fs: loose({ stat: async (u) => fs.promises.stat(u.fsPath) }),
	}),
	window: loose({
		createOutputChannel: channel,
		activeTextEditor: undefined,
		visibleTextEditors: [],
		showErrorMessage: async () => undefined,
		showInformationMessage: async () => undefined,
		showWarningMessage: async () => undefined,
		createStatusBarItem: () => loose({ show() {}, hide() {}, dispose() {} }),
		withProgress: (_, f) => Promise.resolve(f({ report() {} }, {})),
	}),
	commands: loose({
		registerCommand: (name, f, self) => {
			S.commands.set(name, self ? f.bind(self) : f);
			return { dispose: () => S.commands.delete(name) };
		},
		executeCommand: async (name, ...a) => S.commands.get(name)?.(...a),
	}),
	languages: loose({}),
	env: loose({}),
	extensions: loose({ getExtension: () => undefined }),
});

const MODULES = {
	vscode,
	"vscode-languageclient": languageclient,
	"vscode-languageclient/node": languageclient,
	"p-queue": { __esModule: true, default: PQueue },
	"fs-extra": fsExtra,
};
// version 4 answers `null` to `nothrow`; the version that is here does so when synchronous only
const which2 = require(NODE + "which");
const which = (name, o = {}) => which2(name, o).catch((e) => (o.nothrow ? null : Promise.reject(e)));
which.sync = which2.sync;
MODULES.which = which;
const load = Module._load;
Module._load = function (name, ...rest) {
	if (name in MODULES) return MODULES[name];
	return load.call(this, name, ...rest);
};

const unhandled = [];
process.on("unhandledRejection", (e) => unhandled.push(String(e)));
const ROOT = path.dirname(path.dirname(BUNDLE));

async function run(c) {
	S = { case: c, world: null, trace: [], clients: 0, calls: 0, commands: new Map(), defaults: {} };
	const pkg = JSON.parse(fs.readFileSync(c.package, "utf8"));
	for (const [k, v] of Object.entries(pkg.contributes?.configuration?.properties ?? {})) S.defaults[k] = v.default;
	const setup = (w) => {
		S.world = w;
		process.env.PATH = w.path;
		process.chdir(w.cwd);
		for (const f of w.remove) fs.rmSync(f, { recursive: true, force: true });
		for (const f of w.dirs) fs.mkdirSync(f, { recursive: true });
		for (const [f, mode] of w.files) {
			fs.writeFileSync(f, "");
			fs.chmodSync(f, mode);
		}
	};
	delete require.cache[BUNDLE];
	let api, ext;
	const out = { phases: [], missing: null };
	const subscriptions = [];
	for (const [i, phase] of c.phases.entries()) {
		setup(phase.world);
		const results = [];
		if (i === 0) {
			ext = require(BUNDLE);
			const context = loose({ subscriptions, extensionPath: ROOT, extensionUri: Uri.file(ROOT), asAbsolutePath: (p) => path.join(ROOT, p), globalState: loose({ get: () => undefined }), workspaceState: loose({ get: () => undefined }) });
			try {
				api = await ext.activate(context);
			} catch (e) {
				S.trace.push({ activation: String(e) });
			}
		}
		const lsp = api?.__private?.ctx?.lsp;
		for (const [op, gap] of phase.ops) {
			await turns(gap);
			let f;
			if (op === "Command") f = S.commands.get("jarl.restart");
			else if (op === "Deactivate") f = ext.deactivate;
			else f = lsp && lsp[{ Start: "start", Stop: "stop", Restart: "restart" }[op]]?.bind(lsp);
			if (!f) {
				out.missing = op;
				break;
			}
			const k = results.length;
			results.push(null);
			const p = (async () => f())();
			p.then(() => (results[k] = true), () => (results[k] = false));
		}
		if (out.missing) break;
		// the last request is answered after all others, by the property
		const t = Date.now();
		for (let quiet = 0, seen = -1; quiet < 8; ) {
			await turn();
			const now = S.trace.length + S.calls + results.filter((r) => r !== null).length;
			quiet = now === seen && results.every((r) => r !== null) ? quiet + 1 : 0;
			seen = now;
			if (Date.now() - t > 15000) {
				out.hang = i;
				break;
			}
		}
		const ask = (f) => {
			try {
				return f();
			} catch {
				return null;
			}
		};
		const client = lsp ? ask(() => lsp.getClient()) : null;
		out.phases.push({ trace: S.trace.splice(0), results, client: client ? client.n : null, running: client ? client.state === "running" : null, binary: lsp ? ask(() => lsp.getBinaryPath()) : null });
		if (out.hang !== undefined) break;
	}
	for (const d of subscriptions) d?.dispose?.();
	return out;
}

const rl = readline.createInterface({ input: process.stdin });
(async () => {
	for await (const line of rl) {
		let out;
		try {
			out = await run(JSON.parse(line));
		} catch (e) {
			out = { error: String(e?.stack ?? e) };
		}
		process.stdout.write(JSON.stringify(out) + "\n");
	}
})();
