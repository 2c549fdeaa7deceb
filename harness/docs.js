/* What documents what in generated TypeScript. */
'use strict';
module.exports = G => ({
	docs(r) {
		const ts = G.ts, sf = ts.createSourceFile('x.ts', r.src, ts.ScriptTarget.ES2022, true);
		const out = [];
		const name = n => n.name ? (ts.isStringLiteral(n.name) ? n.name.text : n.name.getText(sf)) : n.kind === ts.SyntaxKind.Constructor ? 'constructor' : null;
		const walk = (n, path) => {
			const own = name(n);
			let p = path;
			if (own !== null && (ts.isModuleDeclaration(n) || ts.isEnumDeclaration(n) || ts.isInterfaceDeclaration(n) || ts.isClassDeclaration(n) || ts.isEnumMember(n) ||
			    ts.isPropertySignature(n) || ts.isPropertyDeclaration(n) || ts.isMethodDeclaration(n) || ts.isMethodSignature(n) || ts.isFunctionDeclaration(n) || ts.isConstructorDeclaration(n))) {
				p = path.concat([own]);
				const d = (n.jsDoc || []).map(x => x.getText(sf));
				out.push([p.join('.'), ts.SyntaxKind[n.kind], d, (n.parameters || []).map(x => x.name.getText(sf))]);
				if (ts.isMethodDeclaration(n) || ts.isFunctionDeclaration(n) || ts.isConstructorDeclaration(n))
					return;
			}
			ts.forEachChild(n, c => walk(c, p));
		};
		walk(sf, []);
		return { docs: out };
	},
});
