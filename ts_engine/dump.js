// Writes the type aliases and imports of TypeScript files as JSON.  node dump.js FILE...
const ts = require(process.env.TS_LIB || "/opt/veriftools/node/node_modules/typescript");
const fs = require("fs"), path = require("path");
const K = ts.SyntaxKind;
function q(n) { return n.kind === K.QualifiedName ? q(n.left) + "." + n.right.text : n.text; }
function ty(n) {
  if (!n) return null;
  switch (n.kind) {
    case K.ParenthesizedType: return ty(n.type);
    case K.LiteralType: {
      const l = n.literal;
      if (l.kind === K.StringLiteral || l.kind === K.NoSubstitutionTemplateLiteral) return ["str", l.text];
      if (l.kind === K.NumericLiteral) return ["num", Number(l.text)];
      if (l.kind === K.PrefixUnaryExpression) return ["num", -Number(l.operand.text)];
      return ["kw", l.getText()];
    }
    case K.TypeReference: return ["ref", q(n.typeName), (n.typeArguments || []).map(ty)];
    case K.ConditionalType: return ["cond", ty(n.checkType), ty(n.extendsType), ty(n.trueType), ty(n.falseType)];
    case K.InferType: return ["infer", n.typeParameter.name.text, ty(n.typeParameter.constraint)];
    case K.TupleType: return ["tuple", n.elements.map(ty)];
    case K.NamedTupleMember: return n.dotDotDotToken ? ["rest", ty(n.type)] : n.questionToken ? ["opt", ty(n.type)] : ty(n.type);
    case K.RestType: return ["rest", ty(n.type)];
    case K.OptionalType: return ["opt", ty(n.type)];
    case K.ArrayType: return ["ref", "Array", [ty(n.elementType)]];
    case K.IndexedAccessType: return ["index", ty(n.objectType), ty(n.indexType)];
    case K.TypeOperator: return ["op", ts.tokenToString(n.operator), ty(n.type)];
    case K.UnionType: return ["union", n.types.map(ty)];
    case K.IntersectionType: return ["inter", n.types.map(ty)];
    case K.TypeLiteral: return ["obj", n.members.map(m => m.kind === K.PropertySignature
        ? [m.name.text !== undefined ? String(m.name.text) : m.name.getText(), !!m.questionToken, ty(m.type)] : ["?" + m.getText(), false, null])];
    case K.MappedType: return ["mapped", n.typeParameter.name.text, ty(n.typeParameter.constraint), ty(n.nameType), ty(n.type),
        n.questionToken ? n.questionToken.getText() : "", n.readonlyToken ? n.readonlyToken.getText() : ""];
    case K.TemplateLiteralType: {
      const out = [];
      if (n.head.text) out.push(["str", n.head.text]);
      for (const s of n.templateSpans) { out.push(ty(s.type)); if (s.literal.text) out.push(["str", s.literal.text]); }
      return ["tpl", out];
    }
    default: return ["kw", n.getText()];
  }
}
const out = {};
for (const f of process.argv.slice(2)) {
  const src = ts.createSourceFile(f, fs.readFileSync(f, "utf8"), ts.ScriptTarget.Latest, true);
  const o = { aliases: {}, imports: {}, other: [], errors: (src.parseDiagnostics || []).map(d => ts.flattenDiagnosticMessageText(d.messageText, "\n")) };
  const alias = n => {
    const a = { params: (n.typeParameters || []).map(p => [p.name.text, ty(p.constraint), ty(p.default)]), type: ty(n.type),
      exported: !!(n.modifiers || []).some(m => m.kind === K.ExportKeyword), line: src.getLineAndCharacterOfPosition(n.getStart()).line + 1 };
    o.aliases[n.name.text] = a;
  };
  for (const s of src.statements) {
    if (s.kind === K.TypeAliasDeclaration) alias(s);
    else if (s.kind === K.InterfaceDeclaration && !s.heritageClauses) {
      o.aliases[s.name.text] = { params: (s.typeParameters || []).map(p => [p.name.text, ty(p.constraint), ty(p.default)]),
        type: ["obj", s.members.map(m => [m.name ? String(m.name.text) : m.getText(), !!m.questionToken, ty(m.type)])],
        exported: !!(s.modifiers || []).some(m => m.kind === K.ExportKeyword), line: src.getLineAndCharacterOfPosition(s.getStart()).line + 1 };
    } else if (s.kind === K.ImportDeclaration) {
      const m = s.moduleSpecifier.text, c = s.importClause;
      if (c && c.namedBindings) {
        if (c.namedBindings.kind === K.NamespaceImport) o.imports[c.namedBindings.name.text] = [m, "*"];
        else for (const e of c.namedBindings.elements) o.imports[e.name.text] = [m, (e.propertyName || e.name).text];
      }
    } else o.other.push(s.getText().slice(0, 120));
  }
  out[path.basename(f, ".ts")] = o;
}
process.stdout.write(JSON.stringify(out));
