"""Edits of the type-level runtime: KEEP changes no behaviour, BREAK does."""
L, P, U, C = "ts/lex.ts", "ts/parse.ts", "ts/util.ts", "ts/chars.ts"
KEEP = [
 ("eq", [(U, "export type Eq<A extends number, B extends number> = A extends B ? true : false;", "export type Eq<A extends number, B extends number> = B extends A ? true : false;")]),
 ("accepts", [(L, '''type StateAccepts<state extends State> = state["accepting"] extends true
  ? true
  : false;''', '''type IsTrue<b> = b extends true ? true : false;
type StateAccepts<s extends State> = IsTrue<s["accepting"]>;''')]),
 ("contains", [(L, '''> = [
  U.Gte<labelIdx, range["from"]>,
  U.Lt<labelIdx, range["to"]>
] extends [true, true]
  ? true
  : false;''', '''> = U.Lt<labelIdx, range["to"]> extends true
  ? U.Gte<labelIdx, range["from"]>
  : false;''')]),
 ("white", [(U, '''T extends " " | "\\n"
  ? true
  : false;''', '''T extends " "
  ? true
  : T extends "\\n"
  ? true
  : false;''')]),
 ("flip", [(L, '''? RangeContains<state["labels"][i], label> extends true
    ? state["to"][i]
    : i extends number
    ? NextState<label, state, U.Succ<i>>
    : "unreachable: `i` should always be a number"
  : undefined;''', '''? RangeContains<state["labels"][i], label> extends false
    ? NextState<label, state, U.Succ<i>>
    : state["to"][i]
  : undefined;''')]),
 ("popn", [(U, '''> = n extends 0
  ? arr
  : arr extends [infer head, ...infer tail]
  ? PopNStack<tail, Pred<n>>
  : never;''', '''> = 0 extends n
  ? arr
  : arr extends [infer _h, ...infer others]
  ? PopNStack<others, Pred<n>>
  : never;''')]),
 ("charbuf", [(L, "  charBuf extends string[],\n", ""), (L, "            charBuf,\n", ""), (L, "              charBuf,\n", ""), (L, "            charBuf,\n", ""), (L, "        charBuf,\n", ""), (L, "  0,\n  0,\n  [],\n  undefined\n", "  0,\n  0,\n  undefined\n")]),
 ("inline-shift", [(P, '''? ParseImplShift<
          action["shift"],
          tokenInputs,
          input,
          stack,
          i,
          a,
          symbolStack,
          maxRecursionDepth
        >''', '''? NextToken<a, i, input> extends infer nextTok extends [
          newA: number,
          newI: number
        ]
        ? ParseImpl<
            tokenInputs,
            input,
            [action["shift"], ...stack],
            nextTok[1],
            nextTok[0],
            [
              { kind: "token"; token: tokenInputs[i]; lmao: action["shift"] },
              ...symbolStack
            ],
            U.Pred<maxRecursionDepth>
          >
        : "error: todo fill this out"''')]),
 ("next-token", [(P, '''U.Succ<i> extends infer iPlusOne
  ? iPlusOne extends number
    ? U.Lt<iPlusOne, input["length"]> extends true
      ? iPlusOne extends keyof input
        ? [input[iPlusOne], iPlusOne]
        : `error: input idx out of range (${iPlusOne}>=${input["length"]})`
      : [a, i]
    : `error: incrementing \\`i\\` result is not a number (i=${i})`
  : `error: incrementing \\`i\\` (${i})`;''', '''U.Succ<i> extends infer next extends number
  ? U.Lt<next, input["length"]> extends false
    ? [a, i]
    : next extends keyof input
    ? [input[next], next]
    : `error: input idx out of range (${next}>=${input["length"]})`
  : `error: incrementing \\`i\\` result is not a number (i=${i})`;''')]),
 ("reduce-let", [(P, "          ? ParseImpl<\n              tokenInputs,\n              input,\n              [goto_ta, newStack[0], ...newRestOfStack],", "          ? ParseImpl<\n              tokenInputs,\n              input,\n              [goto_ta, ...newStack],")]),
 ("accept-first", [(P, '''action extends { shift: number }
      ? ParseImplShift<
          action["shift"],
          tokenInputs,
          input,
          stack,
          i,
          a,
          symbolStack,
          maxRecursionDepth
        >''', '''action extends { shift: infer to extends number }
      ? ParseImplShift<
          to,
          tokenInputs,
          input,
          stack,
          i,
          a,
          symbolStack,
          maxRecursionDepth
        >''')]),
 ("params", [(P, "type NextToken<\n  a extends number,\n  i extends number,\n", "type NextToken<\n  i extends number,\n  a extends number,\n"), (P, "NextToken<a, i, input>", "NextToken<i, a, input>")]),
 ("rename-impl", [(U, "export type Reverse<T extends any[]> = ReverseImpl<T, []>;", "export type Reverse<T extends any[]> = ReverseOnto<T>;"), (U, "type ReverseImpl<T extends any[], State extends any[] = []> = T", "type ReverseOnto<T extends any[], State extends any[] = []> = T"), (U, "  ? ReverseImpl<B, [A, ...State]>", "  ? ReverseOnto<B, [A, ...State]>")]),
 ("restart", [(L, '''type LexImpl<
  inputStr''', '''type TokenAt<
  input extends string,
  begin extends number,
  last extends [forward: number, stateIdx: number]
> = TokenDefToToken<last[1], input, begin, last[0]>;

type LexImpl<
  inputStr'''), (L, '''                TokenDefToToken<
                  lastAcceptingState[1],
                  inputStr,
                  lexemeBegin,
                  lastAcceptingState[0]
                >,
                ...tokens
              ],
              U.Succ''', '''                TokenAt<inputStr, lexemeBegin, lastAcceptingState>,
                ...tokens
              ],
              U.Succ''')]),
 ("y-charlist-one", [(L, '''> = input extends ""
  ? U.Reverse<ret>
  : input extends `${infer char}${infer rest}`
''', '''> = input extends `${infer char}${infer rest}`
''')]),
 ("y-charlist-fwd", [(L, '''> = input extends ""
  ? U.Reverse<ret>
  : input extends `${infer char}${infer rest}`
  ? char extends Characters[keyof Characters]
    ? StringToCharList<rest, [char, ...ret]>
    : `invalid char: ${char}`
  : U.Reverse<ret>;''', '''> = input extends `${infer char}${infer rest}`
  ? char extends Characters[keyof Characters]
    ? StringToCharList<rest, [...ret, char]>
    : `invalid char: ${char}`
  : ret;''')]),
 ("y-tokendef-infer", [(L, '''nfaStateArr extends [
  infer x,
  ...infer rest
]
  ? x extends keyof Tokens
    ? Tokens[x]
    : rest extends number[]
    ? GetTokenDefImpl<rest>
    : undefined
  : undefined;''', '''nfaStateArr extends [
  infer first,
  ...infer others extends number[]
]
  ? first extends keyof Tokens
    ? Tokens[first]
    : GetTokenDefImpl<others>
  : undefined;''')]),
 ("y-totoken-shape", [(L, '''  ? tokenDef extends TokenDef
    ? tokenDef["hasValue"] extends true
      ? {
          kind: tokenDef["kind"];
          value: U.Substring<input, lexemeBegin, U.Succ<forward>>;
        }
      : { kind: tokenDef["kind"] }
    : never
  : never;''', '''  ? tokenDef extends { kind: infer kind extends string; hasValue: true }
    ? {
        kind: kind;
        value: U.Substring<input, lexemeBegin, U.Succ<forward>>;
      }
    : tokenDef extends { kind: infer kind extends string; hasValue: boolean }
    ? { kind: kind }
    : never
  : never;''')]),
 ("y-totoken-shape2", [(L, '''    ? tokenDef["hasValue"] extends true
      ? {''', '''    ? tokenDef extends { hasValue: true }
      ? {''')]),
 ("y-totoken-direct", [(L, '''> = GetTokenDef<dfaStateIdx> extends infer tokenDef
  ? tokenDef extends TokenDef
    ? tokenDef["hasValue"]''', '''> = GetTokenDef<dfaStateIdx> extends infer tokenDef extends TokenDef
  ? tokenDef extends TokenDef
    ? tokenDef["hasValue"]''')]),
 ("y-white-nested", [(L, '''        : [U.IsWhitespace<char>, U.Eq<forward, lexemeBegin>] extends [
            true,
            true
          ]
        ? LexImpl<''', '''        : BothTrue<U.Eq<forward, lexemeBegin>, U.IsWhitespace<char>> extends true
        ? LexImpl<'''), (L, "type StateAccepts<", "type BothTrue<a, b> = a extends true ? (b extends true ? true : false) : false;\n\ntype StateAccepts<")]),
 ("y-contains-not", [(L, '''> = [
  U.Gte<labelIdx, range["from"]>,
  U.Lt<labelIdx, range["to"]>
] extends [true, true]
  ? true
  : false;''', '''> = U.Gte<labelIdx, range["from"]> extends false
  ? false
  : U.Lt<labelIdx, range["to"]> extends false
  ? false
  : true;''')]),
 ("y-next-at", [(L, '''> = state["labels"][i] extends CharRange
  ? RangeContains<state["labels"][i], label> extends true
    ? state["to"][i]
    : i extends number
    ? NextState<label, state, U.Succ<i>>
    : "unreachable: `i` should always be a number"
  : undefined;''', '''> = state["labels"][i] extends infer range extends CharRange
  ? RangeContains<range, label> extends true
    ? state["to"][i]
    : NextState<label, state, U.Succ<i>>
  : undefined;''')]),
 ("y-indices-fwd", [(P, '''type TokenIndices<toks extends L.Token[]> = TokenIndicesImpl<
  toks,
  []
> extends infer ret
  ? ret extends number[]
    ? U.Reverse<ret>
    : ret
  : "unreachable: inferring `ret` never fails";''', '''type TokenIndices<toks extends L.Token[]> = TokenIndicesImpl<toks, []>;'''), (P, "            [type_defs.TokenKindToIdx[head[\"kind\"]], ...ret]\n", "            [...ret, type_defs.TokenKindToIdx[head[\"kind\"]]]\n")]),
 ("y-accept-before", [(P, '''    ? action extends { shift: number }
      ? ParseImplShift<''', '''    ? action extends { accept: true }
      ? symbolStack
      : action extends { shift: number }
      ? ParseImplShift<'''), (P, '''      : action extends { accept: true }
      ? symbolStack //[symbolStack, stack] // accept
      : [`error''', '''      : [`error''')]),
 ("y-popval-default", [(U, '''> = PopNStackWithValueImpl<arr, n, []>;
type PopNStackWithValueImpl<
  arr extends any[],
  n extends number,
  ret extends any[]
> = n extends 0''', '''> = PopNStackWithValueImpl<arr, n>;
type PopNStackWithValueImpl<
  arr extends any[],
  n extends number,
  ret extends any[] = []
> = n extends 0''')]),
 ("y-cut-order", [(U, '''> = i extends len
  ? ret
  : str extends `${infer char}${infer rest}`
  ? CutString<rest, `${ret}${char}`, len, Succ<i>>
  : ret;''', '''> = str extends `${infer char}${infer rest}`
  ? i extends len
    ? ret
    : CutString<rest, `${ret}${char}`, len, Succ<i>>
  : ret;''')]),]
BREAK = [
 ("ws-tab", [(U, 'T extends " " | "\\n"', 'T extends " "')]),
 ("lt", [(U, "export type Lt<A extends B, B extends number> = A extends B\n  ? false", "export type Lt<A extends B, B extends number> = A extends B\n  ? true")]),
 ("range", [(L, 'U.Gte<labelIdx, range["from"]>', 'U.Gt<labelIdx, range["from"]>')]),
 ("range2", [(L, 'U.Lt<labelIdx, range["to"]>', 'U.Lte<labelIdx, range["to"]>')]),
 ("forward", [(L, "? [forward, maybeNewStateIdx]", "? [U.Succ<forward>, maybeNewStateIdx]")]),
 ("keep-accept", [(L, "              ? [forward, maybeNewStateIdx]\n              : lastAcceptingState", "              ? [forward, maybeNewStateIdx]\n              : undefined")]),
 ("state0", [(L, "              inputStr,\n              fullInput,\n              0,", "              inputStr,\n              fullInput,\n              stateIdx,")]),
 ("ws-eq", [(L, "U.Eq<forward, lexemeBegin>", "U.Eq<lexemeBegin, lexemeBegin>")]),
 ("eof", [(L, '    ? U.Reverse<[{ kind: "EOF" }, ...tokens]>', '    ? U.Reverse<[...tokens]>')]),
 ("value", [(L, 'value: U.Substring<input, lexemeBegin, U.Succ<forward>>', 'value: U.Substring<input, lexemeBegin, forward>')]),
 ("hasv", [(L, 'tokenDef["hasValue"] extends true', 'tokenDef["hasValue"] extends boolean')]),
 ("tokdef", [(L, "? GetTokenDefImpl<rest>\n    : undefined", "? Tokens[keyof Tokens]\n    : undefined")]),
 ("shift-stack", [(P, "[newStateIdx, ...stack]", "[...stack, newStateIdx]")]),
 ("shift-next", [(P, "      nextTok[1],\n      nextTok[0],", "      nextTok[1],\n      a,")]),
 ("goto-top", [(P, "GetGoto<\n        newStack[0],", "GetGoto<\n        stack[0],")]),
 ("pop", [(P, 'production["tokens"]["length"]', 'U.Pred<production["tokens"]["length"]>')]),
 ("reduce-advance", [(P, "[goto_ta, newStack[0], ...newRestOfStack],\n              i,", "[goto_ta, newStack[0], ...newRestOfStack],\n              U.Succ<i>,")]),
 ("accept", [(P, "action extends { accept: true }", "action extends { accept: boolean } | string")]),
 ("nexttok", [(P, 'U.Lt<iPlusOne, input["length"]>', 'U.Lte<iPlusOne, input["length"]>')]),
 ("kinds", [(P, "[type_defs.TokenKindToIdx[head[\"kind\"]], ...ret]", "[...ret, type_defs.TokenKindToIdx[head[\"kind\"]]]")]),
 ("popwith", [(U, "? PopNStackWithValueImpl<tail, Pred<n>, [head, ...ret]>", "? PopNStackWithValueImpl<tail, Pred<n>, [...ret, head]>")]),
 ("gt", [(U, "B extends 0\n  ? true\n  : A extends 0\n  ? false\n  : GtImpl", "A extends 0\n  ? false\n  : B extends 0\n  ? false\n  : GtImpl")]),
 ("sub", [(U, "SubstringImpl<rest, start, Pred<end>, Succ<iStart>>", "SubstringImpl<rest, start, end, Succ<iStart>>")]),
 ("cut", [(U, "`${ret}${char}`", "`${char}${ret}`")]),
 ("chars", [(C, '48: "0"', '48: "O"')]),
 ("chars2", [(C, '"a": 97', '"a": 98')]),
 ("depth", [(P, "            : \"error: `ruleIdx` is not a key in `Productions`\"", "            : symbolStack")]) if False else ("depth", [(P, "      : [`error: invalid token ${a}`, symbolStack]", "      : symbolStack")]),
 ("getgoto", [(P, '? type_defs.Goto[stateIdx][productionName]', '? type_defs.Goto[stateIdx][keyof type_defs.Goto[stateIdx]]')]),
 ("invalid", [(L, "    : chars // an invalid char", "    : LexChars<fullInput, []> // an invalid char")]),
 ("nextstate", [(L, "NextState<label, state, U.Succ<i>>", "NextState<label, state, U.Succ<U.Succ<i>>>")]),
 ("begin", [(L, "            tokens,\n            U.Succ<lexemeBegin>,\n            U.Succ<forward>,", "            tokens,\n            lexemeBegin,\n            U.Succ<forward>,")]),
 ("pred", [(U, "export type Pred<T> = T extends 0\n  ? 0", "export type Pred<T> = T extends 0\n  ? never")]),
]
KEEP += [
 # a helper extracted for whitespace skipping
 ("k2-skip", [(L, '''[U.IsWhitespace<char>, U.Eq<forward, lexemeBegin>] extends [
            true,
            true
          ]''', '''SkipChar<char, forward, lexemeBegin> extends true'''), (L, "type LexImpl<\n", '''type SkipChar<
  char extends string,
  forward extends number,
  lexemeBegin extends number
> = U.IsWhitespace<char> extends true ? U.Eq<forward, lexemeBegin> : false;

type LexImpl<
''')]),
 # the next state is found first, with a named alias
 ("k2-nextof", [(L, '''? NextState<
        CharTable[char],
        States[stateIdx],
        0
      > extends infer maybeNewStateIdx''', '''? Step<char, stateIdx> extends infer maybeNewStateIdx'''), (L, "type LexImpl<\n", '''type Step<char extends keyof CharTable, stateIdx extends number> = NextState<
  CharTable[char],
  States[stateIdx],
  0
>;

type LexImpl<
''')]),
 ("k2-last", [(L, '''            StateAccepts<States[maybeNewStateIdx]> extends true
              ? [forward, maybeNewStateIdx]
              : lastAcceptingState''', '''            LastAccepting<forward, maybeNewStateIdx, lastAcceptingState>'''), (L, "type LexImpl<\n", '''type LastAccepting<
  forward extends number,
  stateIdx extends number,
  previous
> = StateAccepts<States[stateIdx]> extends false
  ? previous
  : [forward, stateIdx];

type LexImpl<
''')]),
 ("k2-accepts-inline", [(L, "StateAccepts<States[maybeNewStateIdx]> extends true", 'States[maybeNewStateIdx]["accepting"] extends true')]),
 ("k2-tokendef", [(L, '''> = GetTokenDef<dfaStateIdx> extends infer tokenDef
  ? tokenDef extends TokenDef
    ? tokenDef["hasValue"] extends true''', '''> = GetTokenDef<dfaStateIdx> extends infer tokenDef extends TokenDef
    ? tokenDef["hasValue"] extends true'''), (L, '''      : { kind: tokenDef["kind"] }
    : never
  : never;''', '''      : { kind: tokenDef["kind"] }
    : never;''')]),
 ("k2-tokendef-impl", [(L, '''  ? x extends keyof Tokens
    ? Tokens[x]
    : rest extends number[]
    ? GetTokenDefImpl<rest>
    : undefined
  : undefined;''', '''  ? rest extends number[]
    ? x extends keyof Tokens
      ? Tokens[x]
      : GetTokenDefImpl<rest>
    : undefined
  : undefined;''')]),
 ("k2-charlist", [(L, '''> = input extends ""
  ? U.Reverse<ret>
  : input extends `${infer char}${infer rest}`''', '''> = input extends `${infer char}${infer rest}`''')]),
 ("k2-charlist-append", [(L, "StringToCharList<rest, [char, ...ret]>", "StringToCharList<rest, [...ret, char]>"), (L, '''> = input extends ""
  ? U.Reverse<ret>''', '''> = input extends ""
  ? ret'''), (L, '''    : `invalid char: ${char}`
  : U.Reverse<ret>;''', '''    : `invalid char: ${char}`
  : ret;''')]),
 ("k2-range-flip", [(L, '''  U.Gte<labelIdx, range["from"]>,
  U.Lt<labelIdx, range["to"]>
] extends''', '''  U.Lt<labelIdx, range["to"]>,
  U.Gte<labelIdx, range["from"]>
] extends''')]),
 ("k2-range-neg", [(L, '''> = [
  U.Gte<labelIdx, range["from"]>,
  U.Lt<labelIdx, range["to"]>
] extends [true, true]
  ? true
  : false;''', '''> = U.Lt<labelIdx, range["from"]> extends true
  ? false
  : U.Lt<labelIdx, range["to"]>;''')]),
 ("k2-nextstate-label", [(L, '''> = state["labels"][i] extends CharRange
  ? RangeContains<state["labels"][i], label> extends true''', '''> = state["labels"][i] extends infer range extends CharRange
  ? RangeContains<range, label> extends true''')]),
 ("k2-nextstate-default", [(L, '''type NextState<
  label extends number,
  state extends State,
  i extends number
>''', '''type NextState<
  label extends number,
  state extends State,
  i extends number = 0
>'''), (L, '''        CharTable[char],
        States[stateIdx],
        0
      >''', '''        CharTable[char],
        States[stateIdx]
      >''')]),
 ("k2-lexchars", [(L, '''  ? error extends string
    ? error
    : lastAcceptingState extends [forward: number, stateIdx: number]
    ? tokens extends any[]
      ? lastAcceptingState[1] extends number
        ? lexemeBegin extends number
          ? U.Reverse<''', '''  ? error extends string
    ? error
    : lastAcceptingState extends [infer forward extends number, infer stateIdx extends number]
    ? tokens extends any[]
      ? stateIdx extends number
        ? lexemeBegin extends number
          ? U.Reverse<'''), (L, '''                TokenDefToToken<
                  lastAcceptingState[1],
                  fullInput,
                  lexemeBegin,
                  lastAcceptingState[0]
                >''', '''                TokenDefToToken<stateIdx, fullInput, lexemeBegin, forward>''')]),
 ("k2-lex-let", [(L, '''> extends infer chars
  ? chars extends string[]
    ? LexChars<fullInput, chars>
    : chars // an invalid char, it's an error message so return it
  : "unreachable: inferring `chars` never fails";''', '''> extends infer chars extends string[]
  ? LexChars<fullInput, chars>
  : StringToCharList<fullInput, []>; // an invalid char, it's an error message so return it''')]),
 ("k2-reverse", [(U, '''type ReverseImpl<T extends any[], State extends any[] = []> = T extends [
  infer A,
  ...infer B
]
  ? ReverseImpl<B, [A, ...State]>
  : State;''', '''type ReverseImpl<T extends any[], State extends any[] = []> = T extends []
  ? State
  : T extends [infer A, ...infer B]
  ? ReverseImpl<B, [A, ...State]>
  : State;''')]),
 ("k2-gte", [(U, '''export type Gte<A extends B, B extends number> = A extends B
  ? true
  : GtImpl<A, B>;''', '''export type Gte<A extends B, B extends number> = Negate<Lt<A, B>>;''')]),
 ("k2-lte", [(U, '''export type Lte<A extends B, B extends number> = A extends B
  ? true
  : Negate<GtImpl<A, B>>;''', '''export type Lte<A extends B, B extends number> = Negate<Gt<A, B>>;''')]),
 ("k2-gtimpl", [(U, '''> = B extends 0
  ? true
  : A extends 0
  ? false
  : GtImpl<Pred<A>, Pred<B>>;''', '''> = B extends 0
  ? true
  : A extends 0
  ? false
  : [Pred<A>, Pred<B>] extends [infer a extends number, infer b extends number]
  ? GtImpl<a, b>
  : never;''')]),
 ("k2-white-helper", [(U, '''export type IsWhitespace<T extends string> = T extends " " | "\\n"
  ? true
  : false;''', '''type Whitespace = " " | "\\n";

export type IsWhitespace<T extends string> = T extends Whitespace
  ? true
  : false;''')]),
 ("k2-cut", [(U, '''> = i extends len
  ? ret
  : str extends `${infer char}${infer rest}`
  ? CutString<rest, `${ret}${char}`, len, Succ<i>>
  : ret;''', '''> = str extends `${infer char}${infer rest}`
  ? i extends len
    ? ret
    : CutString<rest, `${ret}${char}`, len, Succ<i>>
  : ret;''')]),
 ("k2-popvalue", [(U, '''  arr extends any[],
  n extends number
> = PopNStackWithValueImpl<arr, n, []>;''', '''  arr extends any[],
  n extends number
> = PopNStackWithValueImpl<arr, n>;'''), (U, "  ret extends any[]\n> = n extends 0\n  ? [arr, ret]", "  ret extends any[] = []\n> = n extends 0\n  ? [arr, ret]")]),
 ("k2-succ", [(U, "export type Succ<T> = T extends keyof SuccTable ? SuccTable[T] : never;", "type Lookup<T, Table> = T extends keyof Table ? Table[T] : never;\nexport type Succ<T> = Lookup<T, SuccTable>;")]),
 ("k2-goto-let", [(P, '''> = U.PopNStack<stack, production["tokens"]["length"]> extends infer newStack
  ? newStack extends [number, ...infer newRestOfStack]''', '''> = PopStates<stack, production> extends infer newStack
  ? newStack extends [number, ...infer newRestOfStack]'''), (P, "type ParseImplReduce<\n", '''type PopStates<
  stack extends number[],
  production extends type_defs.Production
> = U.PopNStack<stack, production["tokens"]["length"]>;

type ParseImplReduce<
''')]),
 ("k2-reduce-swap", [(P, '''        ? actions.EmitProduction<
            ruleIdx,
            symbolStack
          > extends infer newSymbolStack extends type_defs.Symbol[]
          ? ParseImpl<
              tokenInputs,
              input,
              [goto_ta, newStack[0], ...newRestOfStack],
              i,
              a,
              newSymbolStack,
              U.Pred<maxRecursionDepth>
            >''', '''        ? actions.EmitProduction<ruleIdx, symbolStack> extends infer newSymbols
          ? newSymbols extends type_defs.Symbol[]
            ? ParseImpl<
                tokenInputs,
                input,
                [goto_ta, newStack[0], ...newRestOfStack],
                i,
                a,
                newSymbols,
                U.Pred<maxRecursionDepth>
              >
            : [
                `error state=${stack[0]} a=${a}`,
                actions.EmitProduction<ruleIdx, symbolStack>,
                symbolStack
              ]''')]),
 ("k2-reduce-first", [(P, '''    ? action extends { shift: number }
      ? ParseImplShift<
          action["shift"],
          tokenInputs,
          input,
          stack,
          i,
          a,
          symbolStack,
          maxRecursionDepth
        >
      : action extends { reduce: infer ruleIdx }''', '''    ? action extends { accept: true }
      ? symbolStack
      : action extends { shift: number }
      ? ParseImplShift<
          action["shift"],
          tokenInputs,
          input,
          stack,
          i,
          a,
          symbolStack,
          maxRecursionDepth
        >
      : action extends { reduce: infer ruleIdx }'''), (P, '''      : action extends { accept: true }
      ? symbolStack //[symbolStack, stack] // accept
      : [`error''', '''      : [`error''')]),
 ("k2-ruleidx", [(P, '''      ? ruleIdx extends keyof type_defs.Productions
        ? type_defs.Productions[ruleIdx] extends infer production extends type_defs.Production
          ? ParseImplReduce<
              ruleIdx,
              production,''', '''      ? ruleIdx extends keyof type_defs.Productions
        ? type_defs.Productions[ruleIdx] extends type_defs.Production
          ? ParseImplReduce<
              ruleIdx,
              type_defs.Productions[ruleIdx],''')]),
 ("k2-indices-append", [(P, '''    ? U.Reverse<ret>
    : ret
  : "unreachable: inferring `ret` never fails";''', '''    ? ret
    : ret
  : "unreachable: inferring `ret` never fails";'''), (P, "[type_defs.TokenKindToIdx[head[\"kind\"]], ...ret]", "[...ret, type_defs.TokenKindToIdx[head[\"kind\"]]]")]),
 ("k2-indices-kind", [(P, '''  ? head extends L.Token
    ? head["kind"] extends keyof type_defs.TokenKindToIdx
      ? tail extends L.Token[]
        ? TokenIndicesImpl<
            tail,
            [type_defs.TokenKindToIdx[head["kind"]], ...ret]
          >
        : "unreachable: tail should always be L.Token[]"
      : `error: head['kind'] is not a valid token kind: ${head["kind"]}`''', '''  ? head extends L.Token
    ? head["kind"] extends infer kind extends keyof type_defs.TokenKindToIdx
      ? tail extends L.Token[]
        ? TokenIndicesImpl<tail, [type_defs.TokenKindToIdx[kind], ...ret]>
        : "unreachable: tail should always be L.Token[]"
      : `error: head['kind'] is not a valid token kind: ${head["kind"]}`''')]),
 ("k2-getaction", [(P, '''> = top extends keyof type_defs.Action
  ? a extends keyof type_defs.Action[top]
    ? type_defs.Action[top][a]
    : "error: `a` is not a key in `Action[top]`"
  : "error: `top` is not a key in `Action`";''', '''> = top extends keyof type_defs.Action
  ? type_defs.Action[top] extends infer row
    ? a extends keyof row
      ? row[a]
      : "error: `a` is not a key in `Action[top]`"
    : never
  : "error: `top` is not a key in `Action`";''')]),
 ("k2-getaction-lookup", [(P, '''> = stateIdx extends keyof type_defs.Goto
  ? productionName extends keyof type_defs.Goto[stateIdx]
    ? type_defs.Goto[stateIdx][productionName]
    : "error: `productionName` is not a key in `Goto[stateIdx]`"
  : `error''', '''> = stateIdx extends keyof type_defs.Goto
  ? Cell<type_defs.Goto[stateIdx], productionName>
  : `error'''), (P, "type NextToken<\n", '''type Cell<row, name extends string> = name extends keyof row
  ? row[name]
  : "error: `productionName` is not a key in `Goto[stateIdx]`";

type NextToken<
''')]),
 ("k2-nexttoken-empty", [(P, '''    ? U.Lt<iPlusOne, input["length"]> extends true
      ? iPlusOne extends keyof input''', '''    ? U.Gte<iPlusOne, input["length"]> extends false
      ? iPlusOne extends keyof input''')]),
 ("k2-shift-token", [(P, '''        { kind: "token"; token: tokenInputs[i]; lmao: newStateIdx },
        ...symbolStack
      ],''', '''        TokenSymbol<tokenInputs[i], newStateIdx>,
        ...symbolStack
      ],'''), (P, "type ParseImplShift<\n", '''type TokenSymbol<token extends L.Token, state extends number> = {
  kind: "token";
  token: token;
  lmao: state;
};

type ParseImplShift<
''')]),
 ("k2-parse-order", [(P, "? ParseImpl<tokenInputs, input, [0], 0, input[0], [], 50>\n      : input extends string\n      ? input\n      : \"error: `input` should always be a number[] or string\"", "? ParseImpl<tokenInputs, input, [0], 0, input[0], [], MaxDepth>\n      : input extends string\n      ? input\n      : \"error: `input` should always be a number[] or string\""), (P, "type Parse<tokenInputs", "type MaxDepth = 50;\ntype Parse<tokenInputs")]),
]
BREAK += [
 ("b2-depth-zero", [(P, "input[0], [], 50>", "input[0], [], 5>")]),
 ("b2-reverse", [(U, "? ReverseImpl<B, [A, ...State]>\n  : State;", "? ReverseImpl<B, [A, ...State]>\n  : [];")]),
 ("b2-skip-any", [(L, '''[U.IsWhitespace<char>, U.Eq<forward, lexemeBegin>] extends [
            true,
            true
          ]''', '''[U.IsWhitespace<char>, U.Eq<forward, lexemeBegin>] extends [
            true,
            boolean
          ]''')]),
 ("b2-last-first", [(L, "              ? [forward, maybeNewStateIdx]\n              : lastAcceptingState", "              ? lastAcceptingState extends undefined ? [forward, maybeNewStateIdx] : lastAcceptingState\n              : lastAcceptingState")]),
 ("b2-next-first-only", [(L, "    ? NextState<label, state, U.Succ<i>>\n    : \"unreachable", "    ? undefined\n    : \"unreachable")]),
 ("b2-tokens-last", [(L, "  ? x extends keyof Tokens\n    ? Tokens[x]\n    : rest extends number[]\n    ? GetTokenDefImpl<rest>\n    : undefined\n  : undefined;", "  ? rest extends [any, ...any[]]\n    ? rest extends number[] ? GetTokenDefImpl<rest> : undefined\n    : x extends keyof Tokens\n    ? Tokens[x]\n    : undefined\n  : undefined;")]),
 ("b2-symstack", [(P, '''        { kind: "token"; token: tokenInputs[i]; lmao: newStateIdx },''', '''        { kind: "token"; token: tokenInputs[a]; lmao: newStateIdx },''')]),
 ("b2-reduce-accept", [(P, "      : action extends { accept: true }\n      ? symbolStack", "      : action extends { accept: true }\n      ? [symbolStack[0]]")]),
 ("b2-goto-shape", [(P, "[goto_ta, newStack[0], ...newRestOfStack]", "[goto_ta, ...newRestOfStack]")]),
 ("b2-emit-stack", [(P, '''            ruleIdx,
            symbolStack
          > extends infer''', '''            ruleIdx,
            U.Reverse<symbolStack> extends type_defs.Symbol[] ? U.Reverse<symbolStack> : never
          > extends infer''')]),
 ("b2-kind-skip", [(P, "      : `error: head['kind'] is not a valid token kind: ${head[\"kind\"]}`", "      : tail extends L.Token[] ? TokenIndicesImpl<tail, ret> : never")]),
 ("b2-white-more", [(U, 'T extends " " | "\\n"', 'T extends " " | "\\n" | "_"')]),
 ("b2-lexerr", [(L, "            `invalid symbol: \\`${char}\\` at index ${forward}`", "            undefined")]),
 ("b2-restart-forward", [(L, "              U.Succ<lastAcceptingState[0]>,\n              U.Succ<lastAcceptingState[0]>,\n              charBuf,\n              undefined\n            >\n          : \"unreachable: accepting", "              U.Succ<lastAcceptingState[0]>,\n              forward,\n              charBuf,\n              undefined\n            >\n          : \"unreachable: accepting")]),
 ("b2-carry", [(L, "              U.Succ<lastAcceptingState[0]>,\n              U.Succ<lastAcceptingState[0]>,\n              charBuf,\n              undefined\n            >\n          : \"unreachable: accepting", "              U.Succ<lastAcceptingState[0]>,\n              U.Succ<lastAcceptingState[0]>,\n              charBuf,\n              lastAcceptingState\n            >\n          : \"unreachable: accepting")]),
 ("b2-substr", [(U, "? CutString<str, \"\", end, 0>", "? CutString<str, \"\", end, start>")]),
 ("b2-popn", [(U, "? PopNStack<tail, Pred<n>>\n  : never;", "? PopNStack<tail, Pred<n>>\n  : arr;")]),
]
BREAK += [
 ("b3-append-base", [(L, "StringToCharList<rest, [char, ...ret]>", "StringToCharList<rest, [...ret, char]>")]),
 ("b3-append-one", [(L, "StringToCharList<rest, [char, ...ret]>", "StringToCharList<rest, [...ret, char]>"), (L, '''> = input extends ""
  ? U.Reverse<ret>''', '''> = input extends ""
  ? ret''')]),
 ("b3-indices", [(P, "[type_defs.TokenKindToIdx[head[\"kind\"]], ...ret]", "[...ret, type_defs.TokenKindToIdx[head[\"kind\"]]]")]),
 ("b3-indices-user", [(P, '''    ? U.Reverse<ret>
    : ret
  : "unreachable: inferring `ret` never fails";''', '''    ? ret
    : ret
  : "unreachable: inferring `ret` never fails";''')]),
 ("b3-seeded", [(L, "StringToCharList<rest, [char, ...ret]>", "StringToCharList<rest, [...ret, char]>"), (L, '''> = input extends ""
  ? U.Reverse<ret>''', '''> = input extends ""
  ? ret'''), (L, '''    : `invalid char: ${char}`
  : U.Reverse<ret>;''', '''    : `invalid char: ${char}`
  : ret;'''), (L, '''export type Lex<fullInput extends string> = StringToCharList<
  fullInput,
  []
>''', '''export type Lex<fullInput extends string> = StringToCharList<
  fullInput,
  [" "]
>''')]),
 ("b3-gte-lt", [(U, '''export type Gte<A extends B, B extends number> = A extends B
  ? true
  : GtImpl<A, B>;''', '''export type Gte<A extends B, B extends number> = Negate<Lte<A, B>>;''')]),
]
KEEP += [
 ("k3-contains-nested", [(L, '''> = [
  U.Gte<labelIdx, range["from"]>,
  U.Lt<labelIdx, range["to"]>
] extends [true, true]
  ? true
  : false;''', '''> = U.Lt<labelIdx, range["to"]> extends true
  ? U.Gte<labelIdx, range["from"]> extends true
    ? true
    : false
  : false;''')]),
 ("k3-contains-direct", [(L, '''] extends [true, true]
  ? true
  : false;

type NextState''', '''] extends [infer a, infer b]
  ? a extends true
    ? b
    : false
  : false;

type NextState''')]),
 ("k3-next-infer", [(L, '''> = state["labels"][i] extends CharRange
  ? RangeContains<state["labels"][i], label> extends true''', '''> = state["labels"][i] extends infer range extends CharRange
  ? RangeContains<range, label> extends true''')]),
 ("k3-next-flag", [(L, '''  ? RangeContains<state["labels"][i], label> extends true
    ? state["to"][i]
    : i extends number
    ? NextState<label, state, U.Succ<i>>
    : "unreachable: `i` should always be a number"
  : undefined;''', '''  ? RangeContains<state["labels"][i], label> extends false
    ? NextState<label, state, U.Succ<i>>
    : state["to"][i]
  : undefined;''')]),
 ("k3-next-default", [(L, "  state extends State,\n  i extends number\n> = state[\"labels\"]", "  state extends State,\n  i extends number = 0\n> = state[\"labels\"]"), (L, '''        States[stateIdx],
        0
      > extends''', '''        States[stateIdx]
      > extends''')]),
 ("k3-accepts-object", [(L, '''type StateAccepts<state extends State> = state["accepting"] extends true
  ? true
  : false;''', '''type StateAccepts<state extends State> = state extends { accepting: true }
  ? true
  : false;''')]),
 ("k3-white-two", [(U, '''> = T extends " " | "\\n"
  ? true
  : false;''', '''> = T extends " " ? true : T extends "\\n" ? true : false;'''), ] if False else [(U, 'export type IsWhitespace<T extends string> = T extends " " | "\\n"\n  ? true\n  : false;', 'export type IsWhitespace<T extends string> = T extends " "\n  ? true\n  : T extends "\\n"\n  ? true\n  : false;')]),
 ("k3-skip-nested", [(L, '''        : [U.IsWhitespace<char>, U.Eq<forward, lexemeBegin>] extends [
            true,
            true
          ]
        ?''', '''        : U.And<U.IsWhitespace<char>, U.Eq<forward, lexemeBegin>> extends true
        ?'''), (U, "export type Eq<", '''export type And<A extends boolean, B extends boolean> = A extends true
  ? B
  : false;

export type Eq<''')]),
 ("k3-last-undefined", [(L, '''        lastAcceptingState extends [
            lastAcceptingIdx: number,
            lastAcceptingStateIdx: number
          ]
        ? lastAcceptingState[1] extends keyof DFAtoNFA''', '''        lastAcceptingState extends [
            infer lastIdx extends number,
            infer lastStateIdx extends number
          ]
        ? lastStateIdx extends keyof DFAtoNFA'''), (L, '''              [
                TokenDefToToken<
                  lastAcceptingState[1],
                  inputStr,
                  lexemeBegin,
                  lastAcceptingState[0]
                >,
                ...tokens
              ],
              U.Succ<lastAcceptingState[0]>,
              U.Succ<lastAcceptingState[0]>,''', '''              [
                TokenDefToToken<lastStateIdx, inputStr, lexemeBegin, lastIdx>,
                ...tokens
              ],
              U.Succ<lastIdx>,
              U.Succ<lastIdx>,''')]),
 ("k3-emit", [(L, '''        [
          TokenDefToToken<
            lastAcceptingState[1],
            inputStr,
            lexemeBegin,
            lastAcceptingState[0]
          >,
          ...tokens
        ],
        U.Succ<lastAcceptingState[0]>,
        U.Succ<lastAcceptingState[0]>,
        charBuf,
        undefined
      >
  : lexemeBegin''', '''        Emit<tokens, lastAcceptingState, inputStr, lexemeBegin>,
        U.Succ<lastAcceptingState[0]>,
        U.Succ<lastAcceptingState[0]>,
        charBuf,
        undefined
      >
  : lexemeBegin'''), (L, "type LexImpl<\n", '''type Emit<
  tokens extends Token[],
  last extends [forward: number, stateIdx: number],
  input extends string,
  lexemeBegin extends number
> = [TokenDefToToken<last[1], input, lexemeBegin, last[0]>, ...tokens];

type LexImpl<
''')]),
 ("k3-restart-let", [(L, '''  ? U.Succ<lastAcceptingState[0]> extends forward
    ? [tokens, lastAcceptingState, lexemeBegin, undefined]
    :''', '''  ? U.Eq<U.Succ<lastAcceptingState[0]>, forward> extends true
    ? [tokens, lastAcceptingState, lexemeBegin, undefined]
    :''')]),
 ("k3-end-order", [(L, '''  : lexemeBegin extends forward
  ? [tokens, lastAcceptingState, lexemeBegin, undefined]
  :''', '''  : U.Eq<lexemeBegin, forward> extends true
  ? [tokens, lastAcceptingState, lexemeBegin, undefined]
  :''')]),
 ("k3-tokdef-flip", [(L, '''    ? tokenDef["hasValue"] extends true
      ? {
          kind: tokenDef["kind"];
          value: U.Substring<input, lexemeBegin, U.Succ<forward>>;
        }
      : { kind: tokenDef["kind"] }''', '''    ? tokenDef["hasValue"] extends false
      ? { kind: tokenDef["kind"] }
      : {
          value: U.Substring<input, lexemeBegin, U.Succ<forward>>;
          kind: tokenDef["kind"];
        }''')]),
 ("k3-tokdef-infer", [(L, '''> = GetTokenDef<dfaStateIdx> extends infer tokenDef
  ? tokenDef extends TokenDef
    ? tokenDef["hasValue"] extends true''', '''> = GetTokenDef<dfaStateIdx> extends infer tokenDef extends TokenDef
  ? tokenDef["hasValue"] extends true'''), (L, '''      : { kind: tokenDef["kind"] }
    : never
  : never;''', '''      : { kind: tokenDef["kind"] }
  : never;''')]),
 ("k3-lex-let", [(L, '''    : tokens extends any[]
    ? U.Reverse<[{ kind: "EOF" }, ...tokens]>''', '''    : tokens extends Token[]
    ? U.Reverse<[EOF, ...tokens]>'''), (L, '''                { kind: "EOF" },
                // `lex''', '''                EOF,
                // `lex'''), (L, "type LexChars<", '''type EOF = { kind: "EOF" };

type LexChars<''')] if False else [(L, '''    ? U.Reverse<[{ kind: "EOF" }, ...tokens]>''', '''    ? U.Reverse<[EOF, ...tokens]>'''), (L, '''                { kind: "EOF" },
                // `lex''', '''                EOF,
                // `lex'''), (L, "type LexChars<", '''type EOF = { kind: "EOF" };

type LexChars<''')]),
 ("k3-popn-any", [(U, '''  ? arr
  : arr extends [infer head, ...infer tail]
  ? PopNStack<tail, Pred<n>>''', '''  ? arr
  : arr extends [any, ...infer tail]
  ? PopNStack<tail, Pred<n>>''')]),
 ("k3-goto-fold", [(P, '''> = U.PopNStack<stack, production["tokens"]["length"]> extends infer newStack
  ? newStack extends [number, ...infer newRestOfStack]
    ? GetGoto<
        newStack[0],''', '''> = U.PopNStack<stack, production["tokens"]["length"]> extends infer newStack
  ? newStack extends [infer top extends number, ...infer newRestOfStack]
    ? GetGoto<
        top,'''), (P, "[goto_ta, newStack[0], ...newRestOfStack]", "[goto_ta, top, ...newRestOfStack]")]),
 ("k3-goto-push", [(P, '''  ? newStack extends [number, ...infer newRestOfStack]
''', '''  ? newStack extends [number, ...number[]]
'''), (P, '''      ? newRestOfStack extends number[]
        ? actions''', '''      ? newStack extends number[]
        ? actions'''), (P, "[goto_ta, newStack[0], ...newRestOfStack]", "[goto_ta, ...newStack]")]),
 ("k3-next-infer-num", [(P, '''> = U.Succ<i> extends infer iPlusOne
  ? iPlusOne extends number
    ? U.Lt''', '''> = U.Succ<i> extends infer next
  ? next extends number
    ? U.Lt'''), (P, '''<iPlusOne, input["length"]> extends true
      ? iPlusOne extends keyof input
        ? [input[iPlusOne], iPlusOne]
        : `error: input idx out of range (${iPlusOne}>=${input["length"]})`''', '''<next, input["length"]> extends true
      ? next extends keyof input
        ? [input[next], next]
        : `error: input idx out of range (${next}>=${input["length"]})`''')]),
 ("k3-shift-split", [(P, '''> = NextToken<a, i, input> extends infer nextTok extends [
  newA: number,
  newI: number
]
  ?''', '''> = NextToken<a, i, input> extends [
  infer newA extends number,
  infer newI extends number
]
  ?'''), (P, '''      nextTok[1],
      nextTok[0],''', '''      newI,
      newA,''')]),
 ("k3-action-infer", [(P, '''    ? action extends { shift: number }
      ? ParseImplShift<
          action["shift"],''', '''    ? action extends { shift: infer newState extends number }
      ? ParseImplShift<
          newState,''')]),
 ("k3-depth-pred", [(P, '''      symbolStack,
      maxRecursionDepth
''', '''      symbolStack,
      maxRecursionDepth
''')] if False else [(P, '''> = maxRecursionDepth extends 0
  ? "exceeded max recursion depth"
  : stack''', '''> = U.Eq<maxRecursionDepth, 0> extends true
  ? "exceeded max recursion depth"
  : stack''')]),
 ("k3-parse-infer", [(P, '''  TokenIndices<tokenInputs> extends infer input
    ? input extends number[]
      ? ParseImpl<tokenInputs, input, [0], 0, input[0], [], 50>
      : input extends string
      ? input
      : "error: `input` should always be a number[] or string"
    : "unreachable: inferring `input` never fails";''', '''  TokenIndices<tokenInputs> extends infer input
    ? input extends string
      ? input
      : input extends number[]
      ? ParseImpl<tokenInputs, input, [0], 0, input[0], [], 50>
      : "error: `input` should always be a number[] or string"
    : "unreachable: inferring `input` never fails";''')]),
 ("k3-sub", [(U, '''export type Sub<A extends number, B extends number> = B extends 0
  ? A
  : Sub<Pred<A>, Pred<B>>;''', '''export type Sub<A extends number, B extends number> = B extends 0
  ? A
  : Pred<A> extends infer a extends number
  ? Sub<a, Pred<B>>
  : never;''')]),
 ("k3-pred-order", [(U, '''export type Pred<T> = T extends 0
  ? 0
  : T extends keyof PredTable
  ? PredTable[T]
  : never;''', '''type PredOf<T> = T extends keyof PredTable ? PredTable[T] : never;
export type Pred<T> = T extends 0 ? 0 : PredOf<T>;''')]),
 ("k3-lt-gte", [(U, '''export type Lt<A extends B, B extends number> = A extends B
  ? false
  : Negate<GtImpl<A, B>>;''', '''export type Lt<A extends B, B extends number> = Negate<Gte<A, B>>;''')]),
 ("k3-cut-two", [(U, '''  ? CutString<str, "", end, 0>''', '''  ? Prefix<str, end>'''), (U, "type CutString<", '''type Prefix<str extends string, len extends number> = CutString<
  str,
  "",
  len,
  0
>;

type CutString<''')]),
 ("k3-popv-order", [(U, '''> = n extends 0
  ? [arr, ret]
  : arr extends [infer head, ...infer tail]
  ? PopNStackWithValueImpl<tail, Pred<n>, [head, ...ret]>
  : never;''', '''> = n extends 0
  ? [arr, ret]
  : arr extends [infer head, ...infer tail]
  ? [head, ...ret] extends infer values extends any[]
    ? PopNStackWithValueImpl<tail, Pred<n>, values>
    : never
  : never;''')]),
]
