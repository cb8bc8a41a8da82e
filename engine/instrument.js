"use strict";
// Rewrites JavaScript so that every operation goes through the runtime `$`.
const ts = require(process.env.VERIF_TS || "/opt/veriftools/node/node_modules/typescript");
const F = ts.factory;
const K = ts.SyntaxKind;
const S = (s) => F.createStringLiteral(s);
const id = (s) => F.createIdentifier(s);
const R = (name, ...args) => F.createCallExpression(F.createPropertyAccessExpression(id("$"), name), undefined, args);
const arrow = (e) => F.createArrowFunction(undefined, undefined, [], undefined, undefined, ts.isObjectLiteralExpression(e) ? F.createParenthesizedExpression(e) : e);
const BIN = { [K.PlusToken]: "add", [K.MinusToken]: "sub", [K.AsteriskToken]: "mul", [K.SlashToken]: "div", [K.PercentToken]: "mod", [K.AsteriskAsteriskToken]: "pow", [K.EqualsEqualsEqualsToken]: "seq", [K.ExclamationEqualsEqualsToken]: "sne", [K.EqualsEqualsToken]: "eq", [K.ExclamationEqualsToken]: "ne", [K.LessThanToken]: "lt", [K.LessThanEqualsToken]: "le", [K.GreaterThanToken]: "gt", [K.GreaterThanEqualsToken]: "ge", [K.InKeyword]: "in", [K.InstanceOfKeyword]: "inst" };
const BITS = { [K.BarToken]: "|", [K.AmpersandToken]: "&", [K.CaretToken]: "^", [K.LessThanLessThanToken]: "<<", [K.GreaterThanGreaterThanToken]: ">>", [K.GreaterThanGreaterThanGreaterThanToken]: ">>>" };
const COMPOUND = { [K.PlusEqualsToken]: K.PlusToken, [K.MinusEqualsToken]: K.MinusToken, [K.AsteriskEqualsToken]: K.AsteriskToken, [K.SlashEqualsToken]: K.SlashToken, [K.PercentEqualsToken]: K.PercentToken, [K.AsteriskAsteriskEqualsToken]: K.AsteriskAsteriskToken, [K.BarEqualsToken]: K.BarToken, [K.AmpersandEqualsToken]: K.AmpersandToken, [K.CaretEqualsToken]: K.CaretToken, [K.LessThanLessThanEqualsToken]: K.LessThanLessThanToken, [K.GreaterThanGreaterThanEqualsToken]: K.GreaterThanGreaterThanToken, [K.GreaterThanGreaterThanGreaterThanEqualsToken]: K.GreaterThanGreaterThanGreaterThanToken };
const opExpr = (op, a, b) => (BIN[op] ? R(BIN[op], a, b) : R("bit", S(BITS[op]), a, b));
function hasSuspend(n) { let f = false; const v = (n) => { if (f) return; if (ts.isAwaitExpression(n) || ts.isYieldExpression(n)) { f = true; return; } if (ts.isFunctionLike(n)) return; ts.forEachChild(n, v); }; v(n); return f; }
function instrument(code, fileName) {
  const sf = ts.createSourceFile(fileName, code, ts.ScriptTarget.ES2022, true, ts.ScriptKind.JS);
  let counter = 0; const scopes = [[]]; const fnIds = [];
  const temp = () => { const n = "$t" + counter++; scopes[scopes.length - 1].push(n); return id(n); };
  const result = ts.transform(sf, [(ctx) => {
    const fnLabel = (n) => { const { line } = sf.getLineAndCharacterOfPosition(n.getStart(sf)); let nm = n.name && ts.isIdentifier(n.name) ? n.name.text : n.name && n.name.getText ? n.name.getText(sf) : ts.isConstructorDeclaration(n) ? "constructor" : n.parent && ts.isVariableDeclaration(n.parent) && ts.isIdentifier(n.parent.name) ? n.parent.name.text : n.parent && ts.isPropertyAssignment(n.parent) ? n.parent.name.getText(sf) : "<fn>"; if (n.parent && ts.isClassLike(n.parent) && n.parent.name) nm = n.parent.name.text + "." + nm; return nm === "<fn>" ? `<fn>@${line + 1}` : nm; };
    const mark = (label) => F.createCallExpression(id("$$F"), undefined, [F.createNumericLiteral(label)]);
    const reg = (n) => { fnIds.push(fnLabel(n)); return fnIds.length - 1; };
    const decl = (names) => F.createVariableStatement(undefined, F.createVariableDeclarationList(names.map((n) => F.createVariableDeclaration(n)), ts.NodeFlags.None));
    const T = (e) => R("t", e);
    const isMember = (n) => ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n);
    const isSuper = (n) => isMember(n) && n.expression.kind === K.SuperKeyword;
    const keyOf = (n) => (ts.isPropertyAccessExpression(n) ? S(n.name.text) : visit(n.argumentExpression));
    const argList = (args) => F.createArrayLiteralExpression((args || []).map((a) => (ts.isSpreadElement(a) ? F.createSpreadElement(R("iter", visit(a.expression))) : visit(a))));
    const unwrap = (n) => { while (ts.isParenthesizedExpression(n)) n = n.expression; return n; };
    function body(b, n, isAsyncGen) {
      scopes.push([]);
      const label = reg(n);
      const stmts = ts.visitNodes(b.statements, visit);
      const t = scopes.pop();
      const pro = []; let rest = [...stmts];
      while (rest.length && ts.isExpressionStatement(rest[0]) && ts.isStringLiteral(rest[0].expression)) pro.push(rest.shift());
      return F.updateBlock(b, [...pro, ...(t.length ? [decl(t)] : []), F.createExpressionStatement(mark(label)), ...rest]);
    }
    const params = (ps) => ts.visitNodes(ps, (p) => F.updateParameterDeclaration(p, p.modifiers, p.dotDotDotToken, visitPattern(p.name), undefined, undefined, p.initializer ? visit(p.initializer) : undefined));
    // patterns: only computed keys and initialisers need rewriting; object sources are wrapped by dsrc
    function visitPattern(n) {
      if (ts.isIdentifier(n)) return n;
      if (ts.isObjectBindingPattern(n)) return F.updateObjectBindingPattern(n, n.elements.map((e) => F.updateBindingElement(e, e.dotDotDotToken, e.propertyName && ts.isComputedPropertyName(e.propertyName) ? F.updateComputedPropertyName(e.propertyName, visit(e.propertyName.expression)) : e.propertyName, visitPattern(e.name), e.initializer ? visit(e.initializer) : undefined)));
      if (ts.isArrayBindingPattern(n)) return F.updateArrayBindingPattern(n, n.elements.map((e) => (ts.isOmittedExpression(e) ? e : F.updateBindingElement(e, e.dotDotDotToken, undefined, visitPattern(e.name), e.initializer ? visit(e.initializer) : undefined))));
      return visit(n);
    }
    function visitFn(n) {
      if (ts.isArrowFunction(n)) {
        const ps = params(n.parameters);
        if (ts.isBlock(n.body)) return F.updateArrowFunction(n, n.modifiers, undefined, ps, undefined, n.equalsGreaterThanToken, body(n.body, n));
        scopes.push([]); const label = reg(n); const e = visit(n.body); const t = scopes.pop();
        if (t.length) return F.updateArrowFunction(n, n.modifiers, undefined, ps, undefined, n.equalsGreaterThanToken, F.createBlock([decl(t), F.createExpressionStatement(mark(label)), F.createReturnStatement(e)]));
        return F.updateArrowFunction(n, n.modifiers, undefined, ps, undefined, n.equalsGreaterThanToken, F.createParenthesizedExpression(F.createComma(mark(label), e)));
      }
      if (!n.body) return n;
      if (ts.isFunctionDeclaration(n)) return F.updateFunctionDeclaration(n, n.modifiers, n.asteriskToken, n.name, undefined, params(n.parameters), undefined, body(n.body, n));
      if (ts.isFunctionExpression(n)) return F.updateFunctionExpression(n, n.modifiers, n.asteriskToken, n.name, undefined, params(n.parameters), undefined, body(n.body, n));
      const nm = (x) => (x && ts.isComputedPropertyName(x) ? F.updateComputedPropertyName(x, visit(x.expression)) : x);
      if (ts.isMethodDeclaration(n)) return F.updateMethodDeclaration(n, n.modifiers, n.asteriskToken, nm(n.name), undefined, undefined, params(n.parameters), undefined, body(n.body, n));
      if (ts.isConstructorDeclaration(n)) return F.updateConstructorDeclaration(n, n.modifiers, params(n.parameters), body(n.body, n));
      if (ts.isGetAccessor(n)) return F.updateGetAccessorDeclaration(n, n.modifiers, nm(n.name), params(n.parameters), undefined, body(n.body, n));
      if (ts.isSetAccessor(n)) return F.updateSetAccessorDeclaration(n, n.modifiers, nm(n.name), params(n.parameters), body(n.body, n));
      return n;
    }
    function assignTarget(target, mkValue) { // target: unvisited lhs; mkValue(currentExpr|null) -> expr ; returns expression
      throw new Error("unused");
    }
    function destructAssign(n) { // assignment patterns: keep native, instrument member targets natively
      const go = (p) => {
        p = unwrap(p);
        if (ts.isArrayLiteralExpression(p)) return F.updateArrayLiteralExpression(p, p.elements.map((e) => (ts.isOmittedExpression(e) ? e : ts.isSpreadElement(e) ? F.createSpreadElement(go(e.expression)) : go(e))));
        if (ts.isObjectLiteralExpression(p)) return F.updateObjectLiteralExpression(p, p.properties.map((e) => { if (ts.isShorthandPropertyAssignment(e)) return e.objectAssignmentInitializer ? F.updateShorthandPropertyAssignment(e, e.name, visit(e.objectAssignmentInitializer)) : e; if (ts.isSpreadAssignment(e)) return F.updateSpreadAssignment(e, go(e.expression)); if (ts.isPropertyAssignment(e)) return F.updatePropertyAssignment(e, e.name, go(e.initializer)); return e; }));
        if (ts.isBinaryExpression(p) && p.operatorToken.kind === K.EqualsToken) return F.updateBinaryExpression(p, go(p.left), p.operatorToken, visit(p.right));
        if (isMember(p)) return ts.isPropertyAccessExpression(p) ? F.updatePropertyAccessExpression(p, visit(p.expression), p.name) : F.updateElementAccessExpression(p, visit(p.expression), visit(p.argumentExpression));
        return p;
      };
      return F.createParenthesizedExpression(F.createAssignment(go(n.left), R("dsrc", visit(n.right))));
    }
    function varDeclList(l, inFor) {
      const out = [];
      for (const d of l.declarations) {
        if (!d.initializer || ts.isIdentifier(d.name)) { out.push(F.updateVariableDeclaration(d, visitPattern(d.name), undefined, undefined, d.initializer ? visit(d.initializer) : undefined)); continue; }
        // object rest at the top level of the pattern is computed by the runtime
        const rest = ts.isObjectBindingPattern(d.name) ? d.name.elements.find((e) => e.dotDotDotToken) : null;
        if (rest && d.name.elements.every((e) => !e.propertyName || !ts.isComputedPropertyName(e.propertyName))) {
          const tv = id("$r" + counter++);
          out.push(F.createVariableDeclaration(tv, undefined, undefined, visit(d.initializer)));
          const others = d.name.elements.filter((e) => e !== rest);
          out.push(F.createVariableDeclaration(visitPattern(F.createObjectBindingPattern(others)), undefined, undefined, R("dsrc", tv)));
          const keys = others.map((e) => { const p = e.propertyName || e.name; return ts.isNumericLiteral(p) ? S(p.text) : S(p.text); });
          out.push(F.createVariableDeclaration(rest.name, undefined, undefined, R("rest", tv, F.createArrayLiteralExpression(keys))));
          continue;
        }
        out.push(F.updateVariableDeclaration(d, visitPattern(d.name), undefined, undefined, R("dsrc", visit(d.initializer))));
      }
      return F.updateVariableDeclarationList(l, out);
    }
    function objectLiteral(n) {
      const complex = n.properties.some((p) => ts.isSpreadAssignment(p) || (p.name && ts.isComputedPropertyName(p.name) && !ts.isStringLiteral(p.name.expression)));
      if (!complex) return F.updateObjectLiteralExpression(n, n.properties.map((p) => { if (ts.isPropertyAssignment(p)) return F.updatePropertyAssignment(p, p.name, visit(p.initializer)); if (ts.isShorthandPropertyAssignment(p)) return p; return visitFn(p); }));
      const items = []; let buf = [];
      const flush = () => { if (buf.length) { items.push(F.createArrayLiteralExpression([S("o"), F.createObjectLiteralExpression(buf)])); buf = []; } };
      const keyE = (nm) => (ts.isComputedPropertyName(nm) ? visit(nm.expression) : ts.isNumericLiteral(nm) ? S(String(Number(nm.text))) : S(nm.text));
      for (const p of n.properties) {
        if (ts.isSpreadAssignment(p)) { flush(); items.push(F.createArrayLiteralExpression([S("s"), visit(p.expression)])); }
        else if (ts.isPropertyAssignment(p)) { flush(); items.push(F.createArrayLiteralExpression([S("p"), keyE(p.name), visit(p.initializer)])); }
        else if (ts.isShorthandPropertyAssignment(p)) { flush(); items.push(F.createArrayLiteralExpression([S("p"), S(p.name.text), id(p.name.text)])); }
        else buf.push(visitFn(p));
      }
      flush(); return R("obj", F.createArrayLiteralExpression(items));
    }
    function visitCall(n) {
      const c = n.expression;
      if (c.kind === K.SuperKeyword) return F.updateCallExpression(n, c, undefined, n.arguments.map((a) => (ts.isSpreadElement(a) ? F.createSpreadElement(R("iter", visit(a.expression))) : visit(a))));
      if (c.kind === K.ImportKeyword) return F.createCallExpression(id("$import"), undefined, n.arguments.map(visit));
      if (ts.isIdentifier(c) && c.text === "require") return F.updateCallExpression(n, c, undefined, n.arguments.map(visit));
      if (isSuper(c)) return F.updateCallExpression(n, ts.isPropertyAccessExpression(c) ? c : F.updateElementAccessExpression(c, c.expression, visit(c.argumentExpression)), undefined, n.arguments.map((a) => (ts.isSpreadElement(a) ? F.createSpreadElement(R("iter", visit(a.expression))) : visit(a))));
      const u = unwrap(c);
      if (isMember(u) && !isSuper(u) && u === c) return R("callm", visit(u.expression), keyOf(u), argList(n.arguments));
      if (isMember(u) && !isSuper(u)) return R("callm", visit(u.expression), keyOf(u), argList(n.arguments));
      return R("call", visit(c), argList(n.arguments));
    }
    function binary(n) {
      const op = n.operatorToken.kind;
      if (op === K.CommaToken) return F.updateBinaryExpression(n, visit(n.left), n.operatorToken, visit(n.right));
      if (op === K.AmpersandAmpersandToken || op === K.BarBarToken) {
        const l = visit(n.left);
        if (hasSuspend(n.right)) { const t = temp(); const r = visit(n.right); const c = T(F.createParenthesizedExpression(F.createAssignment(t, l))); return F.createParenthesizedExpression(op === K.BarBarToken ? F.createConditionalExpression(c, undefined, t, undefined, r) : F.createConditionalExpression(c, undefined, r, undefined, t)); }
        // the right operand lives in an arrow function: temporaries inside it still belong to the enclosing function
        return R(op === K.BarBarToken ? "or" : "and", l, arrow(visit(n.right)));
      }
      if (op === K.QuestionQuestionToken) { const t = temp(); return F.createParenthesizedExpression(F.createConditionalExpression(F.createBinaryExpression(F.createParenthesizedExpression(F.createAssignment(t, visit(n.left))), K.ExclamationEqualsToken, F.createNull()), undefined, t, undefined, visit(n.right))); }
      if (op === K.EqualsToken) {
        const l = unwrap(n.left);
        if (ts.isObjectLiteralExpression(l) || ts.isArrayLiteralExpression(l)) return destructAssign(n);
        if (isMember(l) && !isSuper(l)) return R("set", visit(l.expression), keyOf(l), visit(n.right));
        return F.updateBinaryExpression(n, isSuper(l) ? l : l, n.operatorToken, visit(n.right));
      }
      if (COMPOUND[op] !== undefined) {
        const l = unwrap(n.left), bop = COMPOUND[op];
        if (isMember(l) && !isSuper(l)) { const o = temp(), k = temp(); return R("set", F.createParenthesizedExpression(F.createAssignment(o, visit(l.expression))), F.createParenthesizedExpression(F.createAssignment(k, keyOf(l))), opExpr(bop, R("get", o, k), visit(n.right))); }
        return F.createParenthesizedExpression(F.createAssignment(l, opExpr(bop, l, visit(n.right))));
      }
      if (op === K.AmpersandAmpersandEqualsToken || op === K.BarBarEqualsToken || op === K.QuestionQuestionEqualsToken) throw new Error("logical assignment not lowered in " + fileName);
      if (BIN[op] || BITS[op]) { if (op === K.InKeyword && ts.isPrivateIdentifier(n.left)) return n; return opExpr(op, visit(n.left), visit(n.right)); }
      throw new Error("operator " + ts.SyntaxKind[op]);
    }
    function unary(n) {
      if (ts.isPostfixUnaryExpression(n) || n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) {
        const d = n.operator === K.PlusPlusToken ? 1 : -1, l = unwrap(n.operand), prefix = ts.isPrefixUnaryExpression(n);
        const dn = d === 1 ? F.createNumericLiteral(1) : F.createPrefixUnaryExpression(K.MinusToken, F.createNumericLiteral(1));
        if (isMember(l) && !isSuper(l)) return R("upd", visit(l.expression), keyOf(l), dn, prefix ? F.createTrue() : F.createFalse());
        const unused = ts.isExpressionStatement(n.parent) || (ts.isForStatement(n.parent) && n.parent.incrementor === n);
        if (prefix || unused) return F.createParenthesizedExpression(F.createAssignment(l, R("inc", l, dn)));
        const t = temp(); return F.createParenthesizedExpression(F.createComma(F.createComma(F.createAssignment(t, R("num", l)), F.createAssignment(l, R("inc", t, dn))), t));
      }
      const e = visit(n.operand);
      switch (n.operator) { case K.ExclamationToken: return R("not", e); case K.MinusToken: return ts.isNumericLiteral(n.operand) ? n : R("neg", e); case K.PlusToken: return R("plus", e); case K.TildeToken: return R("bnot", e); }
      throw new Error("unary");
    }
    function visit(n) {
      if (!n) return n;
      if (ts.isFunctionLike(n)) return visitFn(n);
      if (ts.isBinaryExpression(n)) return binary(n);
      if (ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) return unary(n);
      if (ts.isCallExpression(n)) { if (n.questionDotToken) throw new Error("optional call not lowered"); return visitCall(n); }
      if (ts.isNewExpression(n)) return R("new", visit(n.expression), argList(n.arguments));
      if (ts.isTypeOfExpression(n)) { const u = unwrap(n.expression); if (ts.isIdentifier(u)) return F.createParenthesizedExpression(F.createConditionalExpression(F.createBinaryExpression(F.createTypeOfExpression(u), K.EqualsEqualsEqualsToken, S("undefined")), undefined, S("undefined"), undefined, R("tof", u))); return R("tof", visit(n.expression)); }
      if (ts.isDeleteExpression(n)) { const u = unwrap(n.expression); return isMember(u) ? R("del", visit(u.expression), keyOf(u)) : n; }
      if (ts.isConditionalExpression(n)) return F.updateConditionalExpression(n, T(visit(n.condition)), n.questionToken, visit(n.whenTrue), n.colonToken, visit(n.whenFalse));
      if (ts.isTemplateExpression(n)) { if (ts.isTaggedTemplateExpression(n.parent)) return ts.visitEachChild(n, visit, ctx); return R("tpl", F.createArrayLiteralExpression([S(n.head.text), ...n.templateSpans.map((s) => S(s.literal.text))]), F.createArrayLiteralExpression(n.templateSpans.map((s) => visit(s.expression)))); }
      if (isMember(n)) {
        if (isSuper(n)) return ts.isPropertyAccessExpression(n) ? n : F.updateElementAccessExpression(n, n.expression, visit(n.argumentExpression));
        if (ts.isPropertyAccessExpression(n) && ts.isPrivateIdentifier(n.name)) return ts.visitEachChild(n, visit, ctx);
        return R("get", visit(n.expression), keyOf(n));
      }
      if (ts.isObjectLiteralExpression(n)) return objectLiteral(n);
      if (ts.isArrayLiteralExpression(n)) return F.updateArrayLiteralExpression(n, n.elements.map((e) => (ts.isSpreadElement(e) ? F.createSpreadElement(R("iter", visit(e.expression))) : ts.isOmittedExpression(e) ? e : visit(e))));
      if (ts.isIfStatement(n)) return F.updateIfStatement(n, T(visit(n.expression)), visit(n.thenStatement), visit(n.elseStatement));
      if (ts.isWhileStatement(n)) return F.updateWhileStatement(n, T(visit(n.expression)), visit(n.statement));
      if (ts.isDoStatement(n)) return F.updateDoStatement(n, visit(n.statement), T(visit(n.expression)));
      if (ts.isForStatement(n)) return F.updateForStatement(n, n.initializer ? (ts.isVariableDeclarationList(n.initializer) ? varDeclList(n.initializer) : visit(n.initializer)) : undefined, n.condition ? T(visit(n.condition)) : undefined, n.incrementor ? visit(n.incrementor) : undefined, visit(n.statement));
      if (ts.isForOfStatement(n) || ts.isForInStatement(n)) {
        const init = ts.isVariableDeclarationList(n.initializer) ? F.updateVariableDeclarationList(n.initializer, n.initializer.declarations.map((d) => F.updateVariableDeclaration(d, visitPattern(d.name), undefined, undefined, undefined))) : n.initializer;
        if (ts.isForInStatement(n)) return F.createForOfStatement(undefined, init, R("forin", visit(n.expression)), visit(n.statement));
        return F.updateForOfStatement(n, n.awaitModifier, init, n.awaitModifier ? visit(n.expression) : R("iter", visit(n.expression)), visit(n.statement));
      }
      if (ts.isSwitchStatement(n)) {
        const cl = n.caseBlock.clauses; let i = 0; const exprs = [];
        const clauses = cl.map((c) => { const st = c.statements.map(visit); if (ts.isDefaultClause(c)) return F.createDefaultClause(st); exprs.push(arrow(visit(c.expression))); return F.createCaseClause(F.createNumericLiteral(i++), st); });
        return F.updateSwitchStatement(n, R("sw", visit(n.expression), F.createArrayLiteralExpression(exprs)), F.updateCaseBlock(n.caseBlock, clauses));
      }
      if (ts.isTryStatement(n)) {
        let cc = n.catchClause;
        if (cc) {
          const st = ts.visitNodes(cc.block.statements, visit);
          if (cc.variableDeclaration && ts.isIdentifier(cc.variableDeclaration.name)) cc = F.updateCatchClause(cc, cc.variableDeclaration, F.createBlock([F.createExpressionStatement(R("caught", id(cc.variableDeclaration.name.text))), ...st]));
          else if (cc.variableDeclaration) { const nm = "$e" + counter++; cc = F.updateCatchClause(cc, F.createVariableDeclaration(nm), F.createBlock([F.createExpressionStatement(R("caught", id(nm))), F.createVariableStatement(undefined, F.createVariableDeclarationList([F.createVariableDeclaration(visitPattern(cc.variableDeclaration.name), undefined, undefined, id(nm))], ts.NodeFlags.Let)), ...st])); }
          else { const nm = "$e" + counter++; cc = F.updateCatchClause(cc, F.createVariableDeclaration(nm), F.createBlock([F.createExpressionStatement(R("caught", id(nm))), ...st])); }
        }
        return F.updateTryStatement(n, visit(n.tryBlock), cc, n.finallyBlock ? visit(n.finallyBlock) : undefined);
      }
      if (ts.isVariableDeclarationList(n)) return varDeclList(n);
      if (ts.isClassLike(n)) return ts.visitEachChild(n, visit, ctx);
      if (ts.isPropertyDeclaration(n)) throw new Error("class field not lowered in " + fileName);
      return ts.visitEachChild(n, visit, ctx);
    }
    return (root) => { const st = ts.visitNodes(root.statements, visit); const t = scopes[0]; let rest = [...st]; const pro = []; while (rest.length && ts.isExpressionStatement(rest[0]) && ts.isStringLiteral(rest[0].expression)) pro.push(rest.shift()); return F.updateSourceFile(root, [...pro, ...(t.length ? [decl(t)] : []), ...rest]); };
  }]);
  const out = ts.createPrinter({ removeComments: true }).printFile(result.transformed[0]);
  return { code: out, fns: fnIds };
}
function lower(code, fileName, jsx) {
  const r = ts.transpileModule(code, { fileName, compilerOptions: { target: ts.ScriptTarget.ES2018, module: ts.ModuleKind.CommonJS, esModuleInterop: true, resolveJsonModule: true, useDefineForClassFields: true, removeComments: true, allowJs: true, isolatedModules: true, sourceMap: false } });
  return r.outputText;
}
module.exports = { instrument, lower, ts };
