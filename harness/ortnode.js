/* Runs modules generated by ort-nodejs: better-sqlite3 over node:sqlite,
 * a stand-in bcrypt, process.abort recorded instead of executed. */
'use strict';
const vm = require('vm');
const { DatabaseSync } = require('node:sqlite');
const CODES = { 2067: 'UNIQUE', 1555: 'PRIMARYKEY', 787: 'FOREIGNKEY', 1299: 'NOTNULL', 1811: 'TRIGGER', 275: 'CHECK', 2579: 'ROWID' };

class Abort extends Error {}
class SqliteError extends Error {
	constructor(message, code) { super(message); this.code = code; this.name = 'SqliteError'; }
}
function wrap(f) {
	try {
		return f();
	} catch (e) {
		if (e && e.code === 'ERR_SQLITE_ERROR') {
			let c = 'SQLITE_ERROR';
			if ((e.errcode & 0xff) === 19) c = 'SQLITE_CONSTRAINT' + (CODES[e.errcode] ? '_' + CODES[e.errcode] : '');
			else if ((e.errcode & 0xff) === 20) c = 'SQLITE_MISMATCH';
			else if ((e.errcode & 0xff) === 5) c = 'SQLITE_BUSY';
			throw new SqliteError(e.message, c);
		}
		throw e;
	}
}
function nparams(sql) {
	return (sql.match(/\?/g) || []).length;
}
function bindable(p) {
	if (p === null || typeof p === 'number' || typeof p === 'string' || Buffer.isBuffer(p))
		return p;
	if (typeof p === 'bigint') {
		if (p < -(1n << 63n) || p >= (1n << 63n))
			throw new RangeError('BigInt value is too large to bind');
		return p;
	}
	throw new TypeError('SQLite3 can only bind numbers, strings, bigints, buffers, and null');
}
function unbuf(v) {
	return v instanceof Uint8Array ? Buffer.from(v) : v;
}
class Statement {
	constructor(db, sql) {
		this.s = wrap(() => db.db.prepare(sql));
		this.s.setReadBigInts(db.safe);
		this.n = nparams(sql);
		this.cols = this.s.columns().length;
		this.israw = false;
		this.safe = db.safe;
	}
	raw(b) {
		if (this.cols === 0)
			throw new TypeError('The raw() method is only for statements that return data');
		this.israw = b === undefined ? true : b;
		this.s.setReturnArrays(this.israw);
		return this;
	}
	args(a) {
		const p = [];
		for (const x of a)
			if (Array.isArray(x)) p.push(...x); else p.push(x);
		if (p.length !== this.n)
			throw new RangeError('Too ' + (p.length < this.n ? 'few' : 'many') + ' parameter values were provided');
		return p.map(bindable);
	}
	row(r) {
		return Array.isArray(r) ? r.map(unbuf) : r;
	}
	data() {
		if (this.cols === 0)
			throw new TypeError('This statement does not return data. Use run() instead');
	}
	get(...a) { this.data(); const p = this.args(a); const r = wrap(() => this.s.get(...p)); return r === undefined ? r : this.row(r); }
	all(...a) { this.data(); const p = this.args(a); return wrap(() => this.s.all(...p)).map(x => this.row(x)); }
	*iterate(...a) { this.data(); const p = this.args(a); for (const r of wrap(() => this.s.all(...p))) yield this.row(r); }
	run(...a) {
		if (this.cols !== 0)
			throw new TypeError('This statement returns data. Use get(), all(), or iterate() instead');
		const p = this.args(a);
		const r = wrap(() => this.s.run(...p));
		return { changes: Number(r.changes), lastInsertRowid: this.safe ? BigInt(r.lastInsertRowid) : Number(r.lastInsertRowid) };
	}
}
class Database {
	constructor(name) {
		if (Database.named.has(name)) this.db = Database.named.get(name);
		else this.db = new DatabaseSync(name, { timeout: 0 });
		Database.last = this;
		this.safe = false;
	}
	prepare(sql) { return new Statement(this, sql); }
	exec(sql) { wrap(() => this.db.exec(sql)); return this; }
	defaultSafeIntegers(b) { this.safe = b === undefined ? true : b; return this; }
}
Database.named = new Map();

let salt = 0;
const bcrypt = {
	hashSync(data, rounds) {
		if (typeof data !== 'string' && !Buffer.isBuffer(data)) throw new Error('data must be a string or Buffer and salt must either be a salt string or a number of rounds');
		if (typeof rounds !== 'number') throw new Error('data must be a string or Buffer and salt must either be a salt string or a number of rounds');
		salt = (salt + 1) % 10;
		return '$2b$' + rounds + '$' + salt + '$' + data;
	},
	compareSync(data, hash) {
		if (typeof data !== 'string' || typeof hash !== 'string') throw new Error('data and hash must be strings');
		const m = /^\$2b\$\d+\$\d\$([^]*)$/.exec(hash);
		return m !== null && m[1] === data;
	},
};

/* What validator.js (v13) answers for what the module asks it. */
const validator = {
	isEmail(s) {
		if (typeof s !== 'string') throw new TypeError('Expected a string');
		return /^[A-Za-z0-9.!#$%&'*+\/=?^_`{|}~-]+@([A-Za-z0-9]([A-Za-z0-9-]*[A-Za-z0-9])?\.)+[A-Za-z]{2,}$/.test(s);
	},
	normalizeEmail(s) {
		return validator.isEmail(s) ? s.toLowerCase() : false;
	},
	isDate(s, o) {
		o = Object.assign({ format: 'YYYY/MM/DD', delimiters: ['/', '-'], strictMode: false }, o || {});
		if (typeof s !== 'string') return !o.strictMode && s instanceof Date && isFinite(s);
		if (o.strictMode && s.length !== o.format.length) return false;
		const fd = o.delimiters.find(d => o.format.indexOf(d) !== -1);
		const dd = o.strictMode ? fd : o.delimiters.find(d => s.indexOf(d) !== -1);
		const a = s.split(dd), b = o.format.toLowerCase().split(fd), x = {};
		for (let i = 0; i < Math.max(a.length, b.length); i++) {
			if (!a[i] || !b[i] || a[i].length !== b[i].length) return false;
			x[b[i][0]] = a[i];
		}
		if (x.y.startsWith('-')) return false;
		return new Date(x.y + '-' + x.m.padStart(2, '0') + '-' + x.d.padStart(2, '0') + 'T00:00:00.000Z').getUTCDate() === +x.d;
	},
	toDate(s) {
		if (typeof s !== 'string') throw new TypeError('Expected a string');
		const v = Date.parse(s);
		return isNaN(v) ? null : new Date(v);
	},
	isDecimal(s, o) {
		if (typeof s !== 'string') throw new TypeError('Expected a string');
		return /^[-+]?([0-9]+)?(\.[0-9]{1,})?$/.test(s) && !['', '-', '+'].includes(s.replace(/ /g, ''));
	},
	isFloat(s) {
		if (typeof s !== 'string') throw new TypeError('Expected a string');
		return s !== '' && s !== '.' && s !== '-' && s !== '+' && /^(?:[-+])?(?:[0-9]+)?(?:\.[0-9]*)?(?:[eE][\+\-]?(?:[0-9]+))?$/.test(s);
	},
	isInt(s) {
		if (typeof s !== 'string') throw new TypeError('Expected a string');
		return /^(?:[-+]?(?:0|[1-9][0-9]*))$/.test(s);
	},
};

function enc(v) {
	if (v === null) return null;
	switch (typeof v) {
	case 'undefined': return { u: 1 };
	case 'boolean': return { t: v };
	case 'bigint': return { i: v.toString() };
	case 'number': return { r: Number.isFinite(v) ? v : String(v), z: Object.is(v, -0) ? 1 : undefined };
	case 'string': return { s: v };
	}
	if (Buffer.isBuffer(v) || v instanceof Uint8Array) return { b: Buffer.from(v).toString('hex') };
	if (Array.isArray(v)) return { a: v.map(enc) };
	const o = {};
	for (const k of Object.keys(v)) o[k] = enc(v[k]);
	return { o: o };
}
function dec(v) {
	if (v === null) return null;
	if ('i' in v) return BigInt(v.i);
	if ('r' in v) return v.r;
	if ('s' in v) return v.s;
	if ('b' in v) return Buffer.from(v.b, 'hex');
	if ('t' in v) return v.t;
	if ('j' in v) return v.j;
	return undefined;
}

module.exports = G => {
	const shims = { 'better-sqlite3': { __esModule: true, default: Database }, bcrypt: { __esModule: true, default: bcrypt },
		validator: { __esModule: true, default: validator } };
	const proc = Object.create(process);
	proc.abort = () => { throw new Abort('abort'); };
	let M = null;
	/* Result of a call: objects as their data, and exports when asked. */
	function res(v, exp) {
		if (v !== null && typeof v === 'object' && 'obj' in v && typeof v.export === 'function') {
			const r = { d: enc(v.obj) };
			if (exp) {
				try {
					r.e = JSON.parse(JSON.stringify(v.export()));
				} catch (e) {
					r.x = String(e);
				}
			}
			return r;
		}
		if (Array.isArray(v)) return { l: v.map(x => res(x, exp)) };
		return { v: enc(v) };
	}
	function dump(db) {
		const out = {};
		for (const t of M.tables) {
			const s = db.prepare('SELECT * FROM ' + t + ' ORDER BY rowid');
			s.setReadBigInts(true); s.setReturnArrays(true);
			out[t] = s.all().map(r => r.map(enc));
		}
		return out;
	}
	function call(ctx, c, exp) {
		try {
			if (c.seq) {
				/* several calls on the same context */
				let r = null;
				for (const x of c.seq) {
					r = call(ctx, x, exp);
					if (r.abort || r.error) return r;
				}
				return r;
			}
			const a = c.args.map(dec);
			if (typeof ctx[c.fn] !== 'function')
				return { missing: c.fn };
			if (c.iter) {
				const got = [];
				const w = ctx[c.fn](...a, x => { got.push(res(x, exp)); });
				return { l: got, ret: w === undefined ? undefined : enc(w) };
			}
			return res(ctx[c.fn](...a), exp);
		} catch (e) {
			if (e instanceof Abort) return { abort: 1 };
			return { error: String(e && e.name) + ': ' + String(e && e.message || e), code: e && e.code };
		}
	}
	return {
		/* Load a generated module. */
		mod(r) {
			const o = G.ts.transpileModule(r.src, { reportDiagnostics: true,
				compilerOptions: { target: 'ES2022', module: 'CommonJS', esModuleInterop: true, removeComments: true } });
			const d = (o.diagnostics || []).map(x => G.ts.flattenDiagnosticMessageText(x.messageText, ' '));
			const f = vm.runInThisContext('(function(exports, require, process){' + o.outputText + '\n})');
			const e = {};
			f(e, n => { if (n in shims) return shims[n]; throw new Error('requires ' + n); }, proc);
			M = { e: e, sql: r.sql, tables: r.tables };
			return { diags: d, exports: Object.keys(e), fns: e.ortctx ? Object.getOwnPropertyNames(e.ortctx.prototype) : [] };
		},
		/* For each state, each call: result and what the tables hold after. */
		explore(r) {
			const out = [];
			const db = new DatabaseSync(':memory:', { enableForeignKeyConstraints: true });
			db.exec(M.sql);
			db.exec('PRAGMA foreign_keys=ON');
			Database.named.set('db', db);
			const o = M.e.ort('db', r.args);
			for (const st of r.states) {
				db.exec('SAVEPOINT s');
				db.exec('PRAGMA defer_foreign_keys=ON');
				for (const t of M.tables)
					for (const row of st[t] || [])
						db.prepare('INSERT INTO ' + t + ' VALUES (' + row.map(_ => '?').join(',') + ')').run(...row.map(dec));
				const rs = [];
				for (const c of r.calls) {
					const ctx = o.connect();
					let a = null;
					if (c.role && c.role !== 'default') {
						try { ctx.db_role(c.role); } catch (e) { a = { abort: 1, inrole: 1 }; }
					}
					db.exec('SAVEPOINT c');
					/* the pragma is per transaction: force immediate again */
					db.exec('PRAGMA defer_foreign_keys=OFF');
					const x = a || call(ctx, c, r.exp);
					if (c.write) x.db = dump(db);
					if (c.write) db.exec('ROLLBACK TO c');
					db.exec('RELEASE c');
					rs.push(x);
				}
				db.exec('ROLLBACK TO s');
				db.exec('RELEASE s');
				out.push(rs);
			}
			db.close();
			Database.named.delete('db');
			return { out: out };
		},
		/* Calls after each sequence of moves between roles; results are
		 * exported at once and again after leaving the role. */
		roleops(r) {
			const db = new DatabaseSync(':memory:', { enableForeignKeyConstraints: true });
			db.exec(M.sql);
			Database.named.set('db', db);
			const o = M.e.ort('db');
			const out = [];
			for (const t of M.tables)
				for (const row of r.state[t] || [])
					db.prepare('INSERT INTO ' + t + ' VALUES (' + row.map(_ => '?').join(',') + ')').run(...row.map(dec));
			function enter(seq) {
				const ctx = o.connect(), cur = [];
				for (const n of seq) {
					try {
						ctx.db_role(n);
						cur.push(ctx.db_role_current());
					} catch (e) {
						cur.push(e instanceof Abort ? 'ABORT' : String(e));
						return [null, cur];
					}
				}
				return [ctx, cur];
			}
			for (const seq of r.seqs) {
				const [c0, cur] = enter(seq);
				const x = [];
				if (c0 !== null)
					for (const c of r.calls) {
						const [ctx] = enter(seq);
						let v, w = { v: null };
						const a = c.args.map(dec);
						if (c.write) db.exec('SAVEPOINT c');
						try {
							if (typeof ctx[c.fn] !== 'function') {
								w = { missing: c.fn };
							} else {
								if (c.iter) { v = []; ctx[c.fn](...a, y => { v.push(y); }); }
								else v = ctx[c.fn](...a);
								w = res(v, true);
								if (r.late && seq.length) {
									const first = JSON.stringify(w);
									ctx.db_role('none');
									if (JSON.stringify(res(v, true)) !== first) w.late = res(v, true);
								}
							}
						} catch (e) {
							if (e instanceof Abort) w = { abort: 1 };
							else w = { error: String(e && e.name) + ': ' + String(e && e.message || e), code: e && e.code };
						}
						if (c.write) { w.db = dump(db); db.exec('ROLLBACK TO c; RELEASE c'); }
						x.push(w);
					}
				out.push({ cur: cur, x: x });
			}
			Database.named.delete('db');
			db.close();
			return { out: out };
		},
		/* Calls of role functions from every current role. */
		roles(r) {
			const db = new DatabaseSync(':memory:', { enableForeignKeyConstraints: true });
			db.exec(M.sql);
			Database.named.set('db', db);
			const o = M.e.ort('db');
			const out = [];
			for (const seq of r.seqs) {
				const ctx = o.connect();
				const x = [];
				for (const n of seq) {
					try { ctx.db_role(n); x.push(ctx.db_role_current()); } catch (e) { x.push(e instanceof Abort ? 'ABORT' : String(e)); break; }
				}
				out.push(x);
			}
			Database.named.delete('db');
			db.close();
			return { out: out };
		},
		/* Validators. */
		valid(r) {
			const V = M.e.ortvalid.ortValids;
			const out = [];
			for (const c of r.calls) {
				try {
					out.push(c.name in V ? { v: enc(V[c.name](dec(c.v))) } : { missing: 1 });
				} catch (e) {
					out.push({ error: String(e) });
				}
			}
			return { out: out, names: Object.keys(V) };
		},
		/* Values of enumerations and bitfields. */
		consts(r) {
			const out = {};
			for (const k of Object.keys(M.e.ortns || {}))
				if (typeof M.e.ortns[k] === 'object') out[k] = M.e.ortns[k];
			return { out: out, names: Object.keys(M.e.ortns || {}) };
		},
		/* Transactions: two handles on a file. */
		trans(r) {
			const fs = require('fs'), os = require('os'), path = require('path');
			const out = [];
			const dir = fs.mkdtempSync(path.join(fs.existsSync('/dev/shm') ? '/dev/shm' : os.tmpdir(), 'ortnode'));
			try {
				const f0 = path.join(dir, 'new'), f = path.join(dir, 'db');
				const i = new DatabaseSync(f0); i.exec('PRAGMA synchronous=OFF;' + M.sql + (r.init || '')); i.close();
				for (const seq of r.seqs) {
					fs.rmSync(f + '-journal', { force: true });
					fs.copyFileSync(f0, f);
					const cx = [], hs = [];
					for (let k = 0; k < 2; k++) {
						cx.push(M.e.ort(f).connect());
						hs.push(Database.last.db);
						Database.last.db.exec('PRAGMA synchronous=OFF');
					}
					const x = [];
					for (const c of seq)
						x.push(call(cx[c.h], c, false));
					const open = hs.map(h => h.isTransaction);
					for (const h of hs) h.close();
					const j = new DatabaseSync(f);
					out.push({ r: x, db: dump(j), open: open });
					j.close();
				}
			} finally {
				fs.rmSync(dir, { recursive: true, force: true });
			}
			return { out: out };
		},
	};
};
