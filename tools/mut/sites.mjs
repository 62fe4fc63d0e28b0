// Lists mutation sites of a source file: [{start,end,text,kind,line}] (replacement of a range)
import { createRequire } from 'node:module';
import fs from 'node:fs';
const require = createRequire('/opt/veriftools/node/node_modules/');
const ts = require('typescript');
export function sites(file) {
  const src = fs.readFileSync(file, 'utf8');
  const sf = ts.createSourceFile(file, src, ts.ScriptTarget.ES2020, true);
  const out = [];
  const K = ts.SyntaxKind;
  const t = (n) => src.slice(n.getStart(sf), n.end);
  const add = (n, text, kind, stmt = false) => out.push({ start: n.getStart(sf), end: n.end, text, kind, stmt, line: sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1, orig: t(n).slice(0, 120) });
  const fnName = (n) => { for (let p = n; p; p = p.parent) { if (p.name && (ts.isMethodDeclaration(p) || ts.isFunctionDeclaration(p) || ts.isVariableDeclaration(p) || ts.isPropertyDeclaration(p))) return p.name.getText(sf); if (ts.isConstructorDeclaration(p)) return 'constructor'; } return ''; };
  const skipType = (n) => ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isEnumDeclaration(n) || ts.isImportDeclaration(n) || ts.isExportDeclaration(n);
  const logging = (s) => /^\s*(await\s+)?(this\.)?(console|logger|globalScope\.console)\b[?.]*\.(log|debug|warn|error|info|verbose)\(/.test(s) || /logger\??\.(debug|warn|error|info|verbose)/.test(s) || /debugRecorder|recordDebug/.test(s);
  const visit = (n) => {
    if (skipType(n)) return;
    const before = out.length;
    if (ts.isExpressionStatement(n) && ts.isBlock(n.parent)) {
      const s = t(n);
      if (logging(s)) return;
      if (!/^(super|'use)/.test(s)) add(n, ';', 'del-stmt', true);
    }
    if (ts.isReturnStatement(n) && n.expression === undefined && ts.isBlock(n.parent)) add(n, ';', 'del-return', true);
    if ((ts.isBreakStatement(n) || ts.isContinueStatement(n)) && ts.isBlock(n.parent)) add(n, ';', 'del-' + (ts.isBreakStatement(n) ? 'break' : 'continue'), true);
    if (ts.isIfStatement(n)) { add(n.expression, 'true', 'if-true'); add(n.expression, 'false', 'if-false'); }
    if (ts.isConditionalExpression(n)) { add(n, t(n.whenTrue), 'cond-then'); add(n, t(n.whenFalse), 'cond-else'); }
    if (ts.isBinaryExpression(n)) {
      const op = n.operatorToken.kind, L = t(n.left), R = t(n.right);
      if (op === K.AmpersandAmpersandToken || op === K.BarBarToken || op === K.QuestionQuestionToken) { add(n, `(${L})`, 'left-of ' + n.operatorToken.getText(sf)); add(n, `(${R})`, 'right-of ' + n.operatorToken.getText(sf)); }
      const sw = { [K.LessThanToken]: '<=', [K.LessThanEqualsToken]: '<', [K.GreaterThanToken]: '>=', [K.GreaterThanEqualsToken]: '>', [K.PlusToken]: null, [K.MinusToken]: '+' }[op];
      if (sw) add(n, `${L} ${sw} ${R}`, 'op ' + n.operatorToken.getText(sf) + '->' + sw);
      if ((op === K.EqualsEqualsEqualsToken || op === K.ExclamationEqualsEqualsToken || op === K.EqualsEqualsToken || op === K.ExclamationEqualsToken) && !ts.isIfStatement(n.parent)) add(n, `${L} ${op === K.EqualsEqualsEqualsToken || op === K.EqualsEqualsToken ? '!==' : '==='} ${R}`, 'neg-eq');
    }
    if (ts.isNumericLiteral(n) && !ts.isPropertyAssignment(n)) { add(n, `(${n.text} + 1)`, 'num+1'); }
    if (n.kind === K.TrueKeyword && !ts.isLiteralTypeNode(n.parent)) add(n, 'false', 'bool');
    if (n.kind === K.FalseKeyword && !ts.isLiteralTypeNode(n.parent)) add(n, 'true', 'bool');
    if (ts.isSpreadAssignment(n)) add(n.expression, '{}', 'del-spread');
    if (ts.isPropertyAssignment(n) && !ts.isArrayLiteralExpression(n.initializer) && n.initializer.kind !== K.TrueKeyword && n.initializer.kind !== K.FalseKeyword && !ts.isObjectLiteralExpression(n.initializer)) add(n.initializer, 'undefined', 'undef-prop');
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression)) {
      const m = n.expression.name.text;
      const sw = { some: 'every', every: 'some', push: 'unshift', startsWith: 'endsWith', toLowerCase: 'toString', min: 'max', max: 'min' }[m];
      if (sw) add(n.expression, t(n.expression.expression) + '.' + sw, `call ${m}->${sw}`);
      if (['filter', 'slice', 'trim', 'sort', 'reverse', 'toLowerCase', 'concat'].includes(m)) add(n, t(n.expression.expression), 'skip ' + m);
    }
    if (ts.isCatchClause(n)) { /* body kept */ }
    for (let i = before; i < out.length; i++) out[i].fn = fnName(n);
    ts.forEachChild(n, visit);
  };
  visit(sf);
  return { src, out };
}
