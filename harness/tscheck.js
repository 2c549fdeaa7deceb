/* Type-checks generated TypeScript, and lists what it exports. */
'use strict';
const path = require('path');
const STUBS = {
	'/node_modules/better-sqlite3/index.d.ts': `
declare namespace BetterSqlite3 {
	interface Statement<BindParameters extends unknown[], Result = unknown> {
		reader: boolean; source: string;
		run(...params: BindParameters): Database.RunResult;
		get(...params: BindParameters): Result | undefined;
		all(...params: BindParameters): Result[];
		iterate(...params: BindParameters): IterableIterator<Result>;
		pluck(toggleState?: boolean): this; expand(toggleState?: boolean): this; raw(toggleState?: boolean): this;
		bind(...params: BindParameters): this; safeIntegers(toggleState?: boolean): this;
	}
	interface Database {
		memory: boolean; readonly: boolean; name: string; open: boolean; inTransaction: boolean;
		prepare<BindParameters extends unknown[] | {} = unknown[], Result = unknown>(source: string):
			BindParameters extends unknown[] ? Statement<BindParameters, Result> : Statement<[BindParameters], Result>;
		exec(source: string): this;
		pragma(source: string): unknown;
		defaultSafeIntegers(toggleState?: boolean): this;
		close(): this;
	}
	interface DatabaseConstructor {
		new (filename?: string | Buffer, options?: Database.Options): Database;
		(filename?: string, options?: Database.Options): Database;
		prototype: Database;
	}
}
declare namespace Database {
	interface RunResult { changes: number; lastInsertRowid: number | bigint; }
	interface Options { readonly?: boolean | undefined; fileMustExist?: boolean | undefined; }
	type Statement<BindParameters extends unknown[] | {} = unknown[], Result = unknown> = BindParameters extends unknown[]
		? BetterSqlite3.Statement<BindParameters, Result> : BetterSqlite3.Statement<[BindParameters], Result>;
	type Database = BetterSqlite3.Database;
}
declare const Database: BetterSqlite3.DatabaseConstructor;
export = Database;
`,
	'/node_modules/bcrypt/index.d.ts': `
export declare function hashSync(data: string | Buffer, saltOrRounds: string | number): string;
export declare function compareSync(data: string | Buffer, encrypted: string): boolean;
export declare function genSaltSync(rounds?: number, minor?: 'a' | 'b'): string;
declare const d: { hashSync: typeof hashSync, compareSync: typeof compareSync, genSaltSync: typeof genSaltSync };
export default d;
`,
	'/node_modules/validator/index.d.ts': `
declare namespace validator {
	interface IsDateOptions { format?: string | undefined; strictMode?: boolean | undefined; delimiters?: string[] | undefined; }
	interface IsDecimalOptions { force_decimal?: boolean; decimal_digits?: string; locale?: 'en-US' | 'fr-FR'; }
	interface IsIntOptions { min?: number; max?: number; allow_leading_zeroes?: boolean; lt?: number; gt?: number; }
	function isDate(str: string, options?: IsDateOptions): boolean;
	function isDecimal(str: string, options?: IsDecimalOptions): boolean;
	function isEmail(str: string, options?: {}): boolean;
	function isInt(str: string, options?: IsIntOptions): boolean;
	function isFloat(str: string, options?: {}): boolean;
	function isBase64(str: string, options?: {}): boolean;
	function isBoolean(str: string, options?: {}): boolean;
	function isByteLength(str: string, options?: {}): boolean;
	function isLength(str: string, options?: {}): boolean;
	function isEmpty(str: string, options?: {}): boolean;
	function isNumeric(str: string, options?: {}): boolean;
	function isISO8601(str: string, options?: {}): boolean;
	function isIn(str: string, values: any): boolean;
	function matches(str: string, pattern: RegExp | string, modifiers?: string): boolean;
	function trim(input: string, chars?: string): string;
	function normalizeEmail(email: string, options?: {}): string | false;
	function toDate(input: string): Date | null;
	function toFloat(input: string | number): number;
	function toInt(input: string | number, radix?: number): number;
}
export default validator;
`,
	'/node_modules/@types/node/index.d.ts': `
interface Buffer extends Uint8Array { toString(encoding?: string, start?: number, end?: number): string; equals(b: Uint8Array): boolean; compare(b: Uint8Array): -1 | 0 | 1;
	copy(b: Uint8Array, t?: number, s?: number, e?: number): number; slice(s?: number, e?: number): Buffer; subarray(s?: number, e?: number): Buffer;
	write(s: string, o?: number, n?: number, encoding?: string): number; toJSON(): { type: 'Buffer', data: number[] };
	includes(v: string | number | Uint8Array, o?: number, encoding?: string): boolean; indexOf(v: string | number | Uint8Array, o?: number, encoding?: string): number;
	readUInt8(o?: number): number; readBigInt64LE(o?: number): bigint; readBigInt64BE(o?: number): bigint; readBigUInt64LE(o?: number): bigint; readBigUInt64BE(o?: number): bigint; }
interface BufferConstructor {
	from(a: ArrayBuffer | SharedArrayBuffer, o?: number, l?: number): Buffer;
	from(a: Uint8Array | readonly number[]): Buffer;
	from(a: string, encoding?: string): Buffer;
	isBuffer(o: any): o is Buffer;
	isEncoding(e: string): boolean;
	alloc(n: number, fill?: string | Uint8Array | number, encoding?: string): Buffer;
	allocUnsafe(n: number): Buffer;
	byteLength(s: string | ArrayBufferView | ArrayBuffer | SharedArrayBuffer, encoding?: string): number;
	compare(a: Uint8Array, b: Uint8Array): -1 | 0 | 1;
	concat(l: readonly Uint8Array[], n?: number): Buffer;
}
declare var Buffer: BufferConstructor;
declare var console: { log(...a: any[]): void; error(...a: any[]): void; warn(...a: any[]): void };
declare var process: { exit(code?: number): never; abort(): never; env: any; hrtime: any; nextTick: any; argv: string[]; platform: string; on: any; emitWarning: any; stderr: any; stdout: any };
declare function setTimeout(f: (...a: any[]) => void, ms?: number, ...a: any[]): any;
declare class TextEncoder { encode(s?: string): Uint8Array; }
declare class TextDecoder { constructor(l?: string, o?: any); decode(b?: any): string; }
declare function structuredClone<T>(v: T): T;
declare function atob(s: string): string;
declare function btoa(s: string): string;
`,
};
module.exports = G => {
	const ts = G.ts, cache = {}, old = {};
	const libdir = path.dirname(require.resolve(ts.sys ? (process.env.ORT_TS || '/opt/veriftools/node/node_modules/typescript') : ''));
	function check(src, dom, want) {
		const opts = { target: ts.ScriptTarget.ES2021, module: dom ? ts.ModuleKind.None : ts.ModuleKind.CommonJS, strict: true,
			noEmit: true, esModuleInterop: true, moduleResolution: ts.ModuleResolutionKind.NodeJs || 2, ignoreDeprecations: '5.0',
			skipLibCheck: true, skipDefaultLibCheck: true, types: dom ? [] : ['node'],
			lib: ['lib.es2021.d.ts'].concat(dom ? ['lib.dom.d.ts', 'lib.dom.iterable.d.ts'] : []) };
		const files = { '/m.ts': src };
		const host = {
			getSourceFile(f, v) {
				if (files[f] !== undefined) return ts.createSourceFile(f, files[f], v, true);
				if (cache[f] === undefined) {
					const t = STUBS[f] !== undefined ? STUBS[f] : ts.sys.readFile(f);
					cache[f] = t === undefined ? null : ts.createSourceFile(f, t, v, true);
				}
				return cache[f] || undefined;
			},
			getDefaultLibFileName: o => path.join(libdir, ts.getDefaultLibFileName(o)),
			getDefaultLibLocation: () => libdir,
			writeFile() {}, getCurrentDirectory: () => '/', getCanonicalFileName: f => f, useCaseSensitiveFileNames: () => true,
			getNewLine: () => '\n',
			fileExists: f => files[f] !== undefined || STUBS[f] !== undefined || f.startsWith(libdir) && ts.sys.fileExists(f),
			readFile: f => files[f] !== undefined ? files[f] : STUBS[f] !== undefined ? STUBS[f] : ts.sys.readFile(f),
			directoryExists: d => Object.keys(STUBS).some(k => k.startsWith(d + '/')) || d === '/',
			getDirectories: () => [],
		};
		const p = ts.createProgram(['/m.ts'], opts, host, old[dom]);
		old[dom] = p;
		const sf = p.getSourceFile('/m.ts');
		const ds = [...p.getOptionsDiagnostics(), ...p.getSyntacticDiagnostics(sf), ...p.getSemanticDiagnostics(sf)].map(d => [
			d.file ? d.file.getLineAndCharacterOfPosition(d.start).line + 1 : 0, d.code,
			ts.flattenDiagnosticMessageText(d.messageText, ' ').slice(0, 200),
			d.file ? src.split('\n')[d.file.getLineAndCharacterOfPosition(d.start).line].slice(0, 120) : '']);
		const out = { diags: ds.slice(0, 6) };
		if (want && ds.length === 0) {
			const c = p.getTypeChecker(), F = ts.TypeFormatFlags, sig = {};
			const fl = F.NoTruncation | F.UseFullyQualifiedType | F.WriteArrayAsGenericType;
			const str = (t, n) => c.typeToString(t, n, F.NoTruncation);
			const priv = d => ts.getCombinedModifierFlags(d) & (ts.ModifierFlags.Private | ts.ModifierFlags.Protected) ||
				d.name && d.name.kind === ts.SyntaxKind.PrivateIdentifier;
			const member = m => {
				const r = {};
				if (m.name) r.name = m.name.getText();
				r.opt = !!m.questionToken;
				r.static = !!(ts.getCombinedModifierFlags(m) & ts.ModifierFlags.Static);
				if (m.parameters) {
					r.params = m.parameters.map(x => [str(c.getTypeAtLocation(x), x), !!x.questionToken]);
					const s = c.getSignatureFromDeclaration(m);
					r.ret = s ? str(c.getReturnTypeOfSignature(s), m) : null;
				} else
					r.type = str(c.getTypeAtLocation(m), m);
				if (m.initializer && m.initializer.text !== undefined) r.value = m.initializer.text;
				return r;
			};
			const walk = (n, pre) => {
				for (const s of n.statements || []) {
					const exp = ts.getCombinedModifierFlags(s) & ts.ModifierFlags.Export;
					if (ts.isModuleDeclaration(s)) {
						if (s.body) walk(s.body, pre + s.name.getText() + '.');
					} else if (exp && (ts.isClassDeclaration(s) || ts.isInterfaceDeclaration(s) || ts.isEnumDeclaration(s)))
						sig[pre + s.name.getText()] = { kind: ts.SyntaxKind[s.kind], members: s.members.filter(m => !priv(m)).map(member) };
					else if (exp && ts.isFunctionDeclaration(s))
						sig[pre + s.name.getText()] = Object.assign({ kind: 'function' }, member(s));
					else if (ts.isVariableStatement(s)) {
						if (s.modifiers && s.modifiers.some(m => m.kind === ts.SyntaxKind.ExportKeyword))
							for (const d of s.declarationList.declarations)
								sig[pre + d.name.getText()] = { kind: 'variable', type: str(c.getTypeAtLocation(d), d) };
					} else if (exp && s.name)
						sig[pre + s.name.getText()] = { kind: ts.SyntaxKind[s.kind] };
				}
			};
			walk(sf, '');
			out.sig = sig;
		}
		return out;
	}
	return { ts_check(r) { return check(r.src, !!r.dom, !!r.want); } };
};
