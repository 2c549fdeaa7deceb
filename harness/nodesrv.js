/* Long-lived JavaScript worker: one JSON request per line, one JSON reply. */
'use strict';
const fs = require('fs');
const vm = require('vm');
const path = require('path');
const ts = require(process.env.ORT_TS || '/opt/veriftools/node/node_modules/typescript');
const G = { modules: {}, ts: ts, require: require };
const handlers = {
	/* Transpile TypeScript to JavaScript (no type checking). */
	transpile(r) {
		const o = ts.transpileModule(r.src, { reportDiagnostics: true,
			compilerOptions: { target: 'ES2022', module: 'CommonJS', removeComments: !!r.nocomments } });
		const d = (o.diagnostics || []).map(x => ts.flattenDiagnosticMessageText(x.messageText, ' '));
		return { js: o.outputText, diags: d };
	},
	/* Load a plugin: a file exporting functions(G) -> {name: handler}. */
	plugin(r) {
		Object.assign(handlers, require(path.resolve(r.file))(G));
		return {};
	},
};
let buf = Buffer.alloc(0);
function main() {
	const chunk = Buffer.alloc(1 << 20);
	for (;;) {
		let i;
		while ((i = buf.indexOf(10)) >= 0) {
			const line = buf.subarray(0, i).toString('utf8');
			buf = buf.subarray(i + 1);
			let rep;
			try {
				const r = JSON.parse(line);
				rep = handlers[r.op](r);
				if (rep === undefined) rep = {};
			} catch (e) {
				rep = { error: String(e && e.stack || e).slice(0, 2000) };
			}
			const out = Buffer.from(JSON.stringify(rep) + '\n');
			let off = 0;
			while (off < out.length) {
				try { off += fs.writeSync(4, out, off); }
				catch (e) { if (e.code !== 'EAGAIN') throw e; }
			}
		}
		let n;
		try { n = fs.readSync(3, chunk, 0, chunk.length, null); }
		catch (e) { if (e.code === 'EAGAIN') continue; throw e; }
		if (n === 0) process.exit(0);
		buf = Buffer.concat([buf, chunk.subarray(0, n)]);
	}
}
main();
