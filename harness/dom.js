/* A small DOM, and running what ort-javascript generates against it. */
'use strict';
const vm = require('vm');

class Node {
	constructor() { this.parentNode = null; this.childNodes = []; }
	get parentElement() { return this.parentNode instanceof HTMLElement ? this.parentNode : null; }
	get children() { return this.childNodes.filter(c => c instanceof HTMLElement); }
	get childElementCount() { return this.children.length; }
	get firstChild() { return this.childNodes.length ? this.childNodes[0] : null; }
	get lastChild() { return this.childNodes.length ? this.childNodes[this.childNodes.length - 1] : null; }
	get firstElementChild() { return this.children[0] || null; }
	get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
	_adopt(n) {
		if (!(n instanceof Node))
			n = new Text(String(n));
		if (n.parentNode !== null)
			n.remove();
		n.parentNode = this;
		return n;
	}
	append(...ns) { for (const n of ns) this.childNodes.push(this._adopt(n)); }
	prepend(...ns) { this.childNodes.unshift(...ns.map(n => this._adopt(n))); }
	appendChild(n) { this.append(n); return n; }
	insertBefore(n, ref) {
		n = this._adopt(n);
		const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
		this.childNodes.splice(i, 0, n);
		return n;
	}
	removeChild(n) { n.remove(); return n; }
	remove() {
		if (this.parentNode === null) return;
		this.parentNode.childNodes.splice(this.parentNode.childNodes.indexOf(this), 1);
		this.parentNode = null;
	}
	replaceChildren(...ns) {
		for (const c of this.childNodes.slice()) c.remove();
		this.append(...ns);
	}
	hasChildNodes() { return this.childNodes.length > 0; }
	get textContent() { return this.childNodes.map(c => c.textContent).join(''); }
	set textContent(s) {
		if (s === null || s === '') this.replaceChildren();
		else this.replaceChildren(new Text(String(s)));
	}
}
class Text extends Node {
	constructor(s) { super(); this.data = String(s); }
	get textContent() { return this.data; }
	set textContent(s) { this.data = String(s); }
	cloneNode() { return new Text(this.data); }
	dump() { return this.data; }
}
class ClassList {
	constructor(e) { this.e = e; }
	_l() { return (this.e.getAttribute('class') || '').split(/\s+/).filter(x => x.length); }
	_s(l) { this.e.setAttribute('class', l.join(' ')); }
	contains(c) { return this._l().includes(c); }
	add(...cs) { const l = this._l(); for (const c of cs) if (!l.includes(c)) l.push(c); this._s(l); }
	remove(...cs) { this._s(this._l().filter(x => !cs.includes(x))); }
	toggle(c, f) {
		const on = f === undefined ? !this.contains(c) : f;
		if (on) this.add(c); else this.remove(c);
		return on;
	}
	replace(a, b) { this._s(this._l().map(x => x === a ? b : x)); }
	get length() { return this._l().length; }
	get value() { return this.e.className; }
	item(i) { return this._l()[i] || null; }
	[Symbol.iterator]() { return this._l()[Symbol.iterator](); }
	forEach(f) { this._l().forEach(f); }
}
class HTMLElement extends Node {
	constructor(tag) { super(); this.tag = tag; this.attrs = {}; this.classList = new ClassList(this); }
	get tagName() { return this.tag.toUpperCase(); }
	get localName() { return this.tag; }
	get className() { return this.getAttribute('class') || ''; }
	set className(v) { this.setAttribute('class', v); }
	get id() { return this.getAttribute('id') || ''; }
	set id(v) { this.setAttribute('id', v); }
	getAttribute(a) { return Object.prototype.hasOwnProperty.call(this.attrs, a) ? this.attrs[a] : null; }
	hasAttribute(a) { return this.getAttribute(a) !== null; }
	setAttribute(a, v) { this.attrs[a] = String(v); }
	removeAttribute(a) { delete this.attrs[a]; }
	toggleAttribute(a, f) {
		const on = f === undefined ? !this.hasAttribute(a) : f;
		if (!on) this.removeAttribute(a);
		else if (!this.hasAttribute(a)) this.setAttribute(a, '');
		return on;
	}
	get value() {
		const v = this.getAttribute('value');
		if (v !== null) return v;
		if (this.tag === 'option') return this.textContent;
		const t = this.getAttribute('type');
		return this.tag === 'input' ? (t === 'checkbox' || t === 'radio' ? 'on' : '') : undefined;
	}
	set value(v) { this.setAttribute('value', v); }
	_all(f, out) {
		for (const c of this.children) {
			if (f(c)) out.push(c);
			c._all(f, out);
		}
		return out;
	}
	getElementsByClassName(n) {
		const l = String(n).split(/\s+/).filter(x => x.length);
		return this._all(c => l.length > 0 && l.every(x => c.classList.contains(x)), []);
	}
	getElementsByTagName(n) { return this._all(c => n === '*' || c.tag === String(n).toLowerCase(), []); }
	matches(sel) {
		const m = /^([a-z*]*)((?:\.[\w-]+)*)$/.exec(sel);
		if (!m) throw new Error('selector not supported: ' + sel);
		return (!m[1] || m[1] === '*' || m[1] === this.tag) &&
			m[2].split('.').slice(1).every(x => this.classList.contains(x));
	}
	querySelectorAll(sel) { return this._all(c => c.matches(sel), []); }
	querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
	get innerText() { return this.textContent; }
	set innerText(s) { this.textContent = s; }
	get innerHTML() { return this.childNodes.map(c => JSON.stringify(c.dump())).join(''); }
	set innerHTML(s) { this.replaceChildren(); if (s !== '') { const t = new HTMLElement('raw-html'); t.append(s); this.append(t); } }
	cloneNode(deep) {
		const e = build([this.tag, '', {}, []]);
		Object.assign(e.attrs, this.attrs);
		if (deep) for (const c of this.childNodes) e.append(c.cloneNode(true));
		return e;
	}
	dump() {
		const a = Object.assign({}, this.attrs);
		delete a['class'];
		const cl = [...new Set(this.classList._l())].sort().join(' ');
		const kids = [];
		for (const c of this.childNodes.map(c => c.dump())) {
			if (typeof c === 'string' && kids.length && typeof kids[kids.length - 1] === 'string')
				kids[kids.length - 1] += c;
			else if (c !== '')
				kids.push(c);
		}
		return [this.tag, cl, a, kids];
	}
}
class HTMLInputElement extends HTMLElement {}
class HTMLOptionElement extends HTMLElement {}
class HTMLSelectElement extends HTMLElement {}
function build(t) {
	if (typeof t === 'string') return new Text(t);
	const K = { input: HTMLInputElement, option: HTMLOptionElement, select: HTMLSelectElement }[t[0]] || HTMLElement;
	const e = new K(t[0]);
	if (t[1]) e.attrs['class'] = t[1];
	Object.assign(e.attrs, t[2]);
	for (const c of t[3]) e.append(build(c));
	return e;
}
function find(root, id) {
	if (root.getAttribute('id') === id) return root;
	return root._all(c => c.getAttribute('id') === id, [])[0] || null;
}
const cbval = v => v === undefined ? { undef: 1 } : v === null ? null :
	(typeof v === 'object' && Object.getPrototypeOf(v) !== Object.prototype && !Array.isArray(v)) ?
	{ instance: v.constructor && v.constructor.name } : v;

module.exports = G => ({
	/* Load the generated code, as a script. */
	js_load(r) {
		const o = G.ts.transpileModule(r.src, { reportDiagnostics: true, compilerOptions: { target: r.target || 'ES2021' } });
		if (o.diagnostics && o.diagnostics.length)
			return { error: 'syntax: ' + o.diagnostics.map(d => G.ts.flattenDiagnosticMessageText(d.messageText, ' ')).slice(0, 3).join('; ') };
		G.doc = { documentElement: { lang: '' }, createTextNode: s => new Text(s),
			createElement: t => build([String(t).toLowerCase(), '', {}, []]) };
		try {
			Object.assign(globalThis, { document: G.doc, window: globalThis, HTMLElement, HTMLInputElement, HTMLOptionElement,
				HTMLSelectElement, Node, Text });
			G.ort = new Function('document', 'HTMLElement', 'HTMLInputElement', 'HTMLOptionElement', 'HTMLSelectElement', 'Node', 'Text',
				o.outputText + '\n;return ' + (r.ns || 'ort') + ';')(G.doc, HTMLElement, HTMLInputElement,
				HTMLOptionElement, HTMLSelectElement, Node, Text);
		} catch (e) {
			return { error: 'load: ' + String(e) };
		}
		return {};
	},
	/* Values of static members: [class, member]. */
	js_statics(r) {
		return { out: r.q.map(([c, m]) => {
			const v = G.ort[c] && G.ort[c][m];
			if (v === undefined) return ['undefined'];
			if (G.ort.Long.isLong(v)) return ['Long', v.high >>> 0, v.low >>> 0];
			return [typeof v, v];
		}) };
	},
	/* Each run: {lang, tree, steps: [{cls, fn, obj, args, custom, arrays, stat}]} */
	js_run(r) {
		return { out: r.runs.map(x => {
			try {
				G.doc.documentElement.lang = x.lang || '';
				const root = build(x.tree), calls = [];
				for (const st of x.steps) {
					let custom = undefined;
					if (st.custom !== undefined && st.custom !== null) {
						custom = {};
						for (const [k, tags] of st.custom) {
							const fns = tags.map(t => typeof t === 'string' ?
								(e, n, v) => { calls.push([t, e.getAttribute('id'), n, cbval(v), e.dump()]); } : G.ort[t[0]].format);
							custom[k] = fns.length === 1 && !st.arrays ? fns[0] : fns;
						}
					} else if (st.custom === null)
						custom = null;
					const args = st.args.map(a => a !== null && typeof a === 'object' && a.el !== undefined ? find(root, a.el) : a);
					if (st.stat)
						G.ort[st.cls][st.fn](...args);
					else {
						const o = new G.ort[st.cls](st.obj);
						if (custom === undefined) o[st.fn](...args);
						else o[st.fn](...args, custom);
					}
				}
				return { tree: root.dump(), calls: calls };
			} catch (e) {
				return { error: String(e && e.stack || e).slice(0, 300) };
			}
		}) };
	},
	/* Class Long: list of [method or static, [args]] where args are strings
	 * 'n:<int>' (number), 's:<str>', or [high, low, unsigned]. */
	long_run(r) {
		const L = G.ort.Long;
		const mk = a => Array.isArray(a) ? L.fromString(a[0], a[1]) : a;
		const show = v => v === undefined ? { undef: 1 } : L.isLong(v) ?
			['Long', v.high >>> 0, v.low >>> 0, !!v.unsigned] : v === -0 ? 0 : v;
		return { out: r.ops.map(([m, as]) => {
			try {
				const args = as.map(mk);
				if (m[0] === '.') return show(args[0][m.slice(1)](...args.slice(1)));
				return show(L[m](...args));
			} catch (e) { return { error: String(e).slice(0, 200) }; }
		}) };
	},
});
module.exports.parts = { build, find, Text, HTMLElement };
