// Cross-validates the reference model against acorn: reads lines {"t":text,"m":module,"r":tree|null,"b":[bits]}
// and compares verdict and tree. Not part of any check; run by hand (see DESIGN.md).
const acorn = require('/opt/veriftools/node/node_modules/acorn');
const rl = require('readline').createInterface({ input: process.stdin });
let src, cls = false;
const L = v => v.map(x => ' ' + x).join('');
const id = n => '$' + n.name;
function str(n) { return n.raw }
function lit(n) { if (n.regex) return `(re ${n.regex.pattern} ${n.regex.flags})`; if (typeof n.value === 'number') return '#' + n.raw; return n.raw }
function key(n) { const k = n.key; let s = k.type === 'Identifier' && !n.computed ? '$' + k.name : E(k); return n.computed ? `[[${s}]]` : s }
function tpl(n) {
  let o = '(tpl'; n.quasis.forEach((q, i) => { const a = q.start - 1, tail = q.tail; const b = q.end + (tail ? 1 : 2); o += ` <${src.slice(a, b)}|${src.slice(q.start, q.end)}|${tail}>` });
  return o + L(n.expressions.map(E)) + ')'
}
function body(b) { return '[' + b.map(P).join(' ') + ']' }
function fn(n) { return `(${n.async ? 'async-' : ''}fn${n.generator ? '*' : ''} ${n.id ? id(n.id) : '_'} [${n.params.map(E).join(' ')}] ${body(n.body.body)})` }
function clazz(n) {
  return `(class ${n.id ? id(n.id) : '_'} ${n.superClass ? E(n.superClass) : '_'}` + L(n.body.body.map(m => {
    if (m.type !== 'MethodDefinition') throw new Error('member ' + m.type);
    if (m.kind === 'get' || m.kind === 'set') return `(${m.kind} ${key(m)} ${fn(m.value)})`;
    return `(${m.kind === 'constructor' ? 'ctor' : 'cmethod'}/m ${key(m)} ${fn(m.value)})`
  })) + ')'
}
function prop(p) {
  if (p.type === 'SpreadElement' || p.type === 'RestElement') return `(... ${E(p.argument)})`;
  if (p.kind === 'get' || p.kind === 'set') return `(${p.kind} ${key(p)} ${fn(p.value)})`;
  if (p.method) return `(init/m ${key(p)} ${fn(p.value)})`;
  if (p.shorthand) return p.value.type === 'AssignmentPattern' ? `(init/sh ${key(p)} ${E(p.value.right)})` : `(init/sh ${key(p)})`;
  return `(init ${key(p)} ${E(p.value)})`
}
function E(n) {
  if (n === null) return '_';
  switch (n.type) {
    case 'Identifier': return id(n);
    case 'Literal': return lit(n);
    case 'ThisExpression': return 'this';
    case 'Super': return 'super';
    case 'ArrayExpression': case 'ArrayPattern': return '(arr' + L(n.elements.map(E)) + ')';
    case 'SpreadElement': case 'RestElement': return `(... ${E(n.argument)})`;
    case 'AssignmentPattern': return `(= ${E(n.left)} ${E(n.right)})`;
    case 'ObjectExpression': case 'ObjectPattern': return '(obj' + L(n.properties.map(prop)) + ')';
    case 'FunctionExpression': case 'FunctionDeclaration': return fn(n);
    case 'ClassExpression': case 'ClassDeclaration': return clazz(n);
    case 'ArrowFunctionExpression': return `(${n.async ? 'async-arrow' : 'arrow'} [${n.params.map(E).join(' ')}] ${n.body.type === 'BlockStatement' ? body(n.body.body) : E(n.body)})`;
    case 'UnaryExpression': return `(u:${n.operator} ${E(n.argument)})`;
    case 'UpdateExpression': return n.prefix ? `(${n.operator}_ ${E(n.argument)})` : `(_${n.operator} ${E(n.argument)})`;
    case 'BinaryExpression': return `(b:${n.operator} ${E(n.left)} ${E(n.right)})`;
    case 'LogicalExpression': return `(l:${n.operator} ${E(n.left)} ${E(n.right)})`;
    case 'AssignmentExpression': return `(${n.operator} ${E(n.left)} ${E(n.right)})`;
    case 'ConditionalExpression': return `(? ${E(n.test)} ${E(n.consequent)} ${E(n.alternate)})`;
    case 'CallExpression': return `(call ${E(n.callee)}${L(n.arguments.map(E))})`;
    case 'ImportExpression': return `(call $import ${E(n.source)})`;
    case 'NewExpression': return `(new ${E(n.callee)}${L(n.arguments.map(E))})`;
    case 'MemberExpression': return n.computed ? `(idx ${E(n.object)} ${E(n.property)})` : `(dot ${E(n.object)} ${E(n.property)})`;
    case 'MetaProperty': return `(meta ${n.meta.name} ${n.property.name})`;
    case 'SequenceExpression': return '(seq' + L(n.expressions.map(E)) + ')';
    case 'TemplateLiteral': return tpl(n);
    case 'TaggedTemplateExpression': return `(tag ${E(n.tag)} ${tpl(n.quasi)})`;
    case 'YieldExpression': return `(yield${n.delegate ? '*' : ''}${n.argument ? ' ' + E(n.argument) : ''})`;
    case 'AwaitExpression': return `(await ${E(n.argument)})`;
    default: throw new Error(n.type)
  }
}
function vd(n) { return `(${n.kind}` + L(n.declarations.map(d => d.init ? `(init ${E(d.id)} ${E(d.init)})` : E(d.id))) + ')' }
function P(n) { // list items
  if (n.type === 'ExpressionStatement' && n.directive !== undefined) return `(dir ${n.directive} ${n.expression.raw})`;
  if (n.type === 'FunctionDeclaration') return n.async && !P.exp ? `(es ${fn(n)})` : `(fdecl ${fn(n)})`;
  if (n.type === 'ClassDeclaration') return `(cdecl ${clazz(n)})`;
  return S(n)
}
function D(n) { P.exp = true; try { return P(n) } finally { P.exp = false } }
function S(n) {
  switch (n.type) {
    case 'ExpressionStatement': return `(es ${E(n.expression)})`;
    case 'FunctionDeclaration': return `(es ${fn(n)})`;
    case 'VariableDeclaration': return vd(n);
    case 'BlockStatement': return `(block ${body(n.body)})`;
    case 'EmptyStatement': return '(empty)';
    case 'DebuggerStatement': return '(debugger)';
    case 'WithStatement': return `(with ${E(n.object)} ${S(n.body)})`;
    case 'ReturnStatement': return n.argument ? `(return ${E(n.argument)})` : '(return)';
    case 'LabeledStatement': return `(label ${id(n.label)} ${S(n.body)})`;
    case 'BreakStatement': return n.label ? `(break ${id(n.label)})` : '(break)';
    case 'ContinueStatement': return n.label ? `(continue ${id(n.label)})` : '(continue)';
    case 'IfStatement': return `(if ${E(n.test)} ${S(n.consequent)}${n.alternate ? ' ' + S(n.alternate) : ''})`;
    case 'SwitchStatement': return `(switch ${E(n.discriminant)}` + L(n.cases.map(c => `(case ${c.test ? E(c.test) : 'default'} ${body(c.consequent)})`)) + ')';
    case 'ThrowStatement': return `(throw ${E(n.argument)})`;
    case 'TryStatement': return `(try ${body(n.block.body)}${n.handler ? ` (catch ${E(n.handler.param)} ${body(n.handler.body.body)})` : ''}${n.finalizer ? ` (finally ${body(n.finalizer.body)})` : ''})`;
    case 'WhileStatement': return `(while ${E(n.test)} ${S(n.body)})`;
    case 'DoWhileStatement': return `(do ${S(n.body)} ${E(n.test)})`;
    case 'ForStatement': return `(for ${n.init ? (n.init.type === 'VariableDeclaration' ? vd(n.init) : E(n.init)) : '_'} ${E(n.test)} ${E(n.update)} ${S(n.body)})`;
    case 'ForInStatement': case 'ForOfStatement': return `(for-${n.type === 'ForInStatement' ? 'in' : n.await ? 'await-of' : 'of'} ${n.left.type === 'VariableDeclaration' ? vd(n.left) : E(n.left)} ${E(n.right)} ${S(n.body)})`;
    case 'ImportDeclaration': return `(import [${n.specifiers.map(s => s.type === 'ImportDefaultSpecifier' ? 'default@' + s.local.name : s.type === 'ImportNamespaceSpecifier' ? '*@' + s.local.name : (s.imported.end === s.local.end ? s.local.name : s.imported.name + '@as@' + s.local.name)).join(' ')}] ${n.source.raw})`;
    case 'ExportAllDeclaration': return `(export-all ${n.source.raw})`;
    case 'ExportDefaultDeclaration': { const d = n.declaration; return `(export-default ${d.type.endsWith('Declaration') ? D(d) : E(d)})` }
    case 'ExportNamedDeclaration': if (n.declaration) return `(export ${D(n.declaration)})`;
      return `(export [${n.specifiers.map(s => s.local.end === s.exported.end ? s.local.name : s.local.name + '@as@' + s.exported.name).join(' ')}]${n.source ? ' ' + n.source.raw : ''})`;
    default: throw new Error(n.type)
  }
}
const tally = {}; const seen = {};
rl.on('line', l => {
  const c = JSON.parse(l); src = c.t; let got = null, err = '';
  try { const a = acorn.parse(c.t, { ecmaVersion: /import\s*\(/.test(c.t) ? 2020 : 2019, sourceType: c.m ? 'module' : 'script' }); try { got = (`(${c.m ? 'module' : 'script'}` + L(a.body.map(P)) + ')') } catch (e) { got = 'CONV ' + e.message } }
  catch (e) { err = e.message }
  if (/already been declared|is not defined|Duplicate export|Invalid regular/.test(err)) { tally.redecl = (tally.redecl || 0) + 1; return }
  let k;
  if (got === null) k = c.r === null ? 'ok' : c.b.length ? 'ok' : 'REF-ACCEPTS ' + err.replace(/ \(\d+:\d+\)/, '');
  else if (c.r === null) k = 'REF-REJECTS'; else if (c.b.length) k = 'BITS ' + c.b.join(); else k = got === c.r ? 'ok' : 'TREE';
  tally[k] = (tally[k] || 0) + 1;
  if (k !== 'ok') { (seen[k] = seen[k] || []); if (seen[k].length < 6) seen[k].push(JSON.stringify(c.t) + (k === 'TREE' ? `\n      ref ${c.r}\n      aco ${got}` : k === 'REF-REJECTS' ? '   ' + got : '')) }
});
rl.on('close', () => { for (const k in seen) { console.log(k, tally[k]); seen[k].forEach(x => console.log('   ', x)) } console.log(JSON.stringify(tally)) });
