// Development helper: writes every small syntactic mutant of /repo/javascript/lib as JSON lines.
const fs = require('fs'), path = require('path');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const SRC = '/repo/javascript/lib';
const files = d => fs.readdirSync(d, { withFileTypes: true }).flatMap(e => e.isDirectory() ? files(path.join(d, e.name)) : e.name.endsWith('.js') ? [path.join(d, e.name)] : []);
const K = ts.SyntaxKind;
const CMP = { '<': ['<=', '>='], '<=': ['<', '>'], '>': ['>=', '<='], '>=': ['>', '<'], '===': ['!=='], '!==': ['==='], '==': ['!='], '!=': ['=='], '+': ['-'], '-': ['+'], '&&': ['||'], '||': ['&&'], '+=': ['-='] };
let id = 0;
for(const file of files(SRC).sort()) {
  const text = fs.readFileSync(file, 'utf8');
  const sf = ts.createSourceFile(file, text, ts.ScriptTarget.Latest, true);
  const emit = (node, what, from, to, replacement) => {
    const out = text.slice(0, from) + replacement + text.slice(to);
    if(out === text) return;
    console.log(JSON.stringify({ id: ++id, file: path.relative(SRC, file), line: sf.getLineAndCharacterOfPosition(node.getStart()).line + 1, what, old: text.slice(from, to).slice(0, 160), new: replacement.slice(0, 160), text: out }));
  };
  const whole = (node, what, r) => emit(node, what, node.getStart(), node.getEnd(), r);
  const visit = node => {
    if(ts.isBinaryExpression(node)) {
      const op = node.operatorToken;
      for(const o of CMP[op.getText()] || []) emit(node, o, op.getStart(), op.getEnd(), o);
      if(op.kind === K.AmpersandAmpersandToken || op.kind === K.BarBarToken) { whole(node, 'left', node.left.getText()); whole(node, 'right', node.right.getText()); }
    }
    if(ts.isPrefixUnaryExpression(node) && node.operator === K.ExclamationToken) whole(node, 'drop !', node.operand.getText());
    if(node.kind === K.TrueKeyword) whole(node, 'flip', 'false');
    if(node.kind === K.FalseKeyword) whole(node, 'flip', 'true');
    if(ts.isNumericLiteral(node)) { whole(node, '+1', `${+node.text + 1}`); whole(node, '-1', `(${+node.text - 1})`); }
    if(node.kind === K.NullKeyword) whole(node, 'null->0', '0');
    if(ts.isStringLiteral(node) && node.text && !(node.parent && ts.isCallExpression(node.parent) && node.parent.expression.getText() === 'require')) whole(node, 'empty string', "''");
    if(ts.isConditionalExpression(node)) { whole(node, 'then', node.whenTrue.getText()); whole(node, 'else', node.whenFalse.getText()); }
    if(ts.isIfStatement(node)) {
      const e = node.expression;
      emit(node, 'negate', e.getStart(), e.getEnd(), `!(${e.getText()})`);
      emit(node, 'always', e.getStart(), e.getEnd(), 'true');
      emit(node, 'never', e.getStart(), e.getEnd(), 'false');
    }
    if(ts.isExpressionStatement(node) || ts.isThrowStatement(node) || ts.isContinueStatement(node) || ts.isBreakStatement(node) || ts.isForOfStatement(node)) {
      if(!node.getText().startsWith('exports') && !node.getText().startsWith('module') && !node.getText().startsWith('super')) whole(node, 'delete', ';');
    }
    if(ts.isReturnStatement(node) && node.expression) whole(node, 'return nothing', 'return;');
    if(ts.isCallExpression(node) && ts.isPropertyAccessExpression(node.expression) && ['trim', 'replace', 'filter', 'reverse', 'slice', 'substring'].includes(node.expression.name.text)) whole(node, 'drop call', node.expression.expression.getText());
    if(ts.isCallExpression(node) && node.arguments.length > 1) { const l = node.arguments[node.arguments.length - 1]; emit(node, 'drop last argument', node.arguments[node.arguments.length - 2].getEnd(), l.getEnd(), ''); }
    if(ts.isPropertyAssignment(node) && ts.isObjectLiteralExpression(node.parent)) whole(node, 'drop property', '');
    ts.forEachChild(node, visit);
  };
  if(!file.includes('messages')) visit(sf);
}
