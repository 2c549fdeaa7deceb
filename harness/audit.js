/* audit.js and audit.html as a browser would have them, with the output of ort-audit-json -s. */
'use strict';
const vm = require('vm');
const dom = require('./dom.js');
module.exports = G => ({
	audit_load(r) {
		G.apage = r.tree;
		G.ajs = r.js;
		return {};
	},
	audit_run(r) {
		const { build, find } = dom.parts;
		const root = build(G.apage), logs = [], load = [];
		const win = { addEventListener: (n, f) => { if (n === 'load') load.push(f); } };
		win.document = {
			getElementById: s => find(root, String(s)),
			getElementsByClassName: s => root.getElementsByClassName(s),
			createElement: t => build([String(t).toLowerCase(), '', {}, []]),
			createTextNode: s => new dom.parts.Text(s),
		};
		win.window = win;
		win.console = { log: s => logs.push(String(s)) };
		try {
			const ctx = vm.createContext(win);
			for (const s of r.scripts || [])
				vm.runInContext(s, ctx);
			vm.runInContext(G.ajs, ctx);
			for (const f of load)
				f();
			const out = { page: root.dump(), clicks: [], logs };
			const aside = find(root, 'kwbp-aside');
			const links = root._all(c => typeof c.onclick === 'function', []);
			let l2 = 0;
			const click = (e, via) => {
				e.onclick();
				const t = e.getAttribute('class'), o = { cls: t, text: e.textContent, via, aside: aside.dump() };
				/* whose it is */
				let p = e;
				while (p && p.getAttribute && !(p.getAttribute('id') || '').startsWith('kwbp-') && !p.classList.contains('audit-own')) {
					const n = p.parentNode;
					if (n && n.getAttribute && n.getAttribute('id') === 'kwbp-audit-access-list')
						o.owner = n.children.indexOf(p);
					p = n;
				}
				out.clicks.push(o);
			};
			for (const e of links)
				if (!aside._all(c => c === e, []).length)
					click(e, null);
			const x = find(root, 'kwbp-aside-close');
			x.onclick();
			out.closed = aside.classList.contains('hide');
			/* in another order */
			if (r.reverse)
				for (const e of links.reverse())
					if (!aside._all(c => c === e, []).length)
						click(e, 'reverse');
			return out;
		} catch (e) {
			return { error: String(e && e.stack || e).slice(0, 300) };
		}
	},
});
