/* ort-json.ts: configuration objects back to ort(5). */
'use strict';
const vm = require('vm');
module.exports = G => ({
	ortjson_load(r) {
		const o = G.ts.transpileModule(r.src, { compilerOptions: { target: 'ES2022' } });
		G.ortJson = vm.runInThisContext('(function(){' + o.outputText + '; return ortJson; })()');
		return {};
	},
	ortjson(r) {
		const out = [];
		for (const c of r.cfgs) {
			try {
				out.push({ s: new G.ortJson.ortJsonConfigFormat(JSON.parse(c)).toString() });
			} catch (e) {
				out.push({ error: String(e) });
			}
		}
		return { out: out };
	},
});
