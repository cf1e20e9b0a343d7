// build.cjs SRC OUT: bundles the extension as its own webpack.config.js does.
const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
const [src, out] = process.argv.slice(2);
esbuild.buildSync({
	entryPoints: [src],
	outfile: out,
	bundle: true,
	platform: "node",
	format: "cjs",
	target: "node20",
	// whatever is not the extension's own is found, or stood in for, when it runs
	packages: "external",
	logLevel: "error",
	tsconfigRaw: {},
});
