
L='editors/code/src/lsp.ts'; B='editors/code/src/binary.ts'; W='editors/code/src/workspace.ts'
seed('vs-start-outside', 'C43', L, [("		await this.stateQueue.add(async () => await this.startImpl());", "		// Nothing to wait for if it runs already\n		if (this.state === State.Started) {\n			return;\n		}\n		await this.stateQueue.add(async () => await this.startImpl());")],
 'a start requested while a stop of the running server is still queued', 'the start is dropped, and the extension ends up stopped, because the state is looked at before the operations asked for earlier were carried out', 'vscode', """
run(async () => {
	put("ext/bundled/bin/jarl");
	const [, lsp] = activate();
	await wait();
	const a = lsp.stop();
	const b = lsp.start();
	await a;
	await b;
	assert.deepStrictEqual(S.events.map((e) => e.split(" ").slice(0, 2).join(" ")), ["start 1", "started 1", "stop 1", "stopped 1", "start 2", "started 2"]);
	lsp.getClient();
});
""")
seed('vs-stop-fails', 'C43', L, [("""			this.state = State.Stopped;
			this.client = null;
			this.binaryPath = null;
		}
	}

	private async restartImpl() {
		if (this.state === State.Started) {
			await this.stopImpl();
		}
		await this.startImpl();""","""			this.client = null;
			this.binaryPath = null;
		}
		this.state = State.Stopped;
	}

	private async restartImpl() {
		if (this.state === State.Started) {
			await this.stopImpl();
		}
		await this.startImpl();""")],
 'a server that fails to stop, and a start afterwards', 'after a failed stop the extension takes itself for started without any client: it can never be started again', 'vscode', """
run(async () => {
	put("ext/bundled/bin/jarl");
	const [, lsp] = activate();
	await wait();
	S.stop = async () => { throw new Error("timed out"); };
	await assert.rejects(lsp.stop());
	await lsp.start();
	assert.strictEqual(S.events.filter((e) => e.startsWith("started")).length, 2, S.events.join());
	lsp.getClient();
});
""")
seed('vs-restart-same-binary', 'C43', L, [("""	private async restartImpl() {
		if (this.state === State.Started) {
			await this.stopImpl();
		}
		await this.startImpl();""","""	private async restartImpl() {
		const binaryPath = this.binaryPath;
		if (this.state === State.Started) {
			await this.stopImpl();
		}
		await this.startImpl(binaryPath);"""),
 ("	private async startImpl() {","	private async startImpl(previous: string | null = null) {"),
 ("""		const binaryPath = await resolveJarlBinaryPath(
			workspaceSettings.executableStrategy,
			workspaceSettings.executablePath,
		);""","""		// A restart with the same strategy finds the same binary again
		const sameStrategy = this.strategy === workspaceSettings.executableStrategy;
		this.strategy = workspaceSettings.executableStrategy;
		const binaryPath =
			previous && sameStrategy
				? previous
				: await resolveJarlBinaryPath(
						workspaceSettings.executableStrategy,
						workspaceSettings.executablePath,
					);"""),
 ("	private state = State.Stopped;","	private strategy: string | null = null;\n\n	private state = State.Stopped;")],
 'a restart after `executablePath` (or what is bundled or in PATH) has changed, the strategy staying the same', 'the restarted server is still the previous binary', 'vscode', """
run(async () => {
	S.user = { executableStrategy: "path", executablePath: put("one/jarl") };
	activate();
	await wait();
	S.user.executablePath = put("two/jarl");
	await Promise.all(Object.values(commands).map((f) => f()));
	await wait();
	assert.deepStrictEqual(S.events.filter((e) => /^start /.test(e)), ["start 1 one/jarl", "start 2 two/jarl"]);
});
""")
seed('vs-root-last', 'C43', W, [("root.length > w.uri.fsPath.length &&","root.length >= w.uri.fsPath.length &&")],
 'several workspace folders, two of them with the same shortest length and different settings', 'the settings of the last of the shortest folders are used instead of those of the first', 'vscode', """
run(async () => {
	const [a, b, c] = ["w/longer", "w/a", "w/b"].map((p) => path.dirname(put(p + "/x.R")));
	S.folders = [a, b, c];
	const jarl = (p) => ({ executableStrategy: "path", executablePath: put("bin-" + p + "/jarl") });
	S.byFolder = { [a]: jarl("longer"), [b]: jarl("a"), [c]: jarl("b") };
	activate();
	await wait();
	assert.deepStrictEqual(S.events.slice(0, 1), ["start 1 bin-a/jarl"]);
});
""")
seed('vs-untrusted-fallback', 'C43', B, [("""			return bundledPath;
		}

		throw new Error(
			"Workspace is not trusted and failed to find executable in bundled location",
		);
	} else if (executableStrategy === "bundled") {""","""			return bundledPath;
		}

		output.log("Bundled executable not found in untrusted workspace");
	}

	if (executableStrategy === "bundled" || !vscode.workspace.isTrusted) {""")],
 'a workspace that is not trusted and no bundled binary, but one in PATH', 'a binary that is not the bundled one is run in a workspace that is not trusted', 'vscode', """
run(async () => {
	S.trusted = false;
	process.env.PATH = path.dirname(put("bin/jarl"));
	const [, lsp] = activate();
	await assert.rejects(lsp.start());
	assert.deepStrictEqual(S.events, []);
});
""")
