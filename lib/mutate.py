"""Variants of the corpus programs: cut, garbled, with other types, expressions and parameters, as JavaScript with JSDoc types,
with other line terminators."""
import re

TYPES = """any|unknown|never|void|null|undefined|string|'a'|`a${string}b`|`${number}`|number|1|1n|bigint|boolean|true|symbol|object|{}|[]|[string]
[a?: string]|[...string[]]|[number, ...string[], boolean]|readonly []|readonly string[]|string[]|Array<any>|ReadonlyArray<{}>|Promise<any>|Promise<void>|PromiseLike<string>|() => void|() => Promise<void>
(...args: []) => Promise<void>|(...args: never[]) => unknown|new () => object|abstract new () => any|this|T|T[]|keyof T|T[keyof T]|{ a?: string }|{ [k: string]: any }|typeof globalThis
typeof import('fs')|asserts x|x is string|Error|Function|RegExp|Map<string, never>|Set<Promise<number>>|Record<'a', string>|Iterable<number>|AsyncIterable<number>|Iterator<1>
E.A|E|never[]|Missing|import('missing').X|Partial<{ a: string }>|object & { x: 1 }|(string)|((a: string) => void)|{ (): void; x: 1 }|{ then(): void }|{ toString(): string }|unique symbol""".replace("\n", "|").split("|")
TYPES += ["string | number | null", "(string | (string | 1))", "1 | 2", "{ readonly a: 1 } & { b: 2 }", "Promise<string> | undefined", "string | Promise<string>", "A | B", "T extends string ? 1 : 2",
          "{ a: 1 } | { b: 2 }", "string & { __brand: 1 }", "`a${string}` | `b${string}`", "undefined | null", "boolean | undefined", "{ [K in 'a' | 'b']?: K }"]
EXPRS = """undefined|null|this|super.x|1|1n|'a'|"b"|`c`|`a${1}b`|`${'x'}`|/a/|/^a/|/a$/g|/^a$/u|/(?<x>a)/v|[]|[...[]]|[,]|[, 1]|{}|({})|({ ...x })|({ ['a']: 1 })|() => {}|async () => {}|function () {}|function* () {}|async function* () {}
class {}|class extends x {}|new x()|new x|new Map()|new Set([1])|new Error()|new.target|import.meta|import('x')|await x|yield|yield* x|typeof x|void 0|!x|!!x|-x|+x|~x|x++|--x|x!|x!!|x!.y|x?.y|x?.[0]|x?.()|x?.y!.z|x as any|x as const|x as unknown as 1
x satisfies any|<any>x|(x, y)|x ? y : z|x ?? y|x = y|x['y']|x[0]|x[-1]|x["a b"]|x.y.z()|x`a`|x`${1}`|x.#p|delete x.y|delete x[0]|'a' in x|#p in x|x instanceof y|x === null|x == null|null != x|x === undefined|typeof x === 'string'|typeof x === "undefined"|Promise.resolve()
Promise.reject()|Promise.reject(...[])|Promise.all([])|Promise.all([1])|Promise.all(x)|Promise.race(new Set())|new Promise((...[]) => {})|new Promise((_, r) => r(1))|x.then()|x.then(...[])|x.then(() => {}, () => {})|x.catch((...a: []) => {})|x.catch(e => { throw e })|x.finally(() => {})|x.filter()[0]|x.filter(y => y)[0]|x.filter(Boolean).at(0)|x.indexOf('a') !== -1|x.indexOf(y) >= 0
x.charAt(0) === 'a'|x[0] === 'a'|x.slice(0, 1) === 'a'|x.substring(x.length - 1) === 'a'|x.match(/a/)|x.match('a')|/a/.test(x)|x.length|x.sort()|x.toSorted()|x.reduce((a, b) => a, {} as any)|JSON.parse('')|String(x)|String()|Number()|Number(1)|BigInt(1n)|Boolean(x)|x.toString()|x.toString|x + ''|'' + x|`${x}`|x.join()|setTimeout('a')|eval('a')|new Function('a')|Symbol.iterator
x.map(async () => {})|x.forEach(async () => {})|[x].map(y => y.z)|Object.keys(x)|Object.assign({}, x)|{ ...x }|x === y|x > y|x + y|x && y|x \\|\\| y|x \\|\\|= y|x && x.y|x && x.y && x.y.z|!x \\|\\| !x.y|x != null && x.y|enum_""".replace("\\|", "\0").replace("\n", "|").split("|")
EXPRS = [e.replace("\0", "|") for e in EXPRS]
PARAMS = ["", "...[]", "...[a]", "{}", "[]", "this: void", "a = 1", "{ a } = {}", "[a] = []", "{ a = 1, ...b }", "[a = 1, ...b]", "a?: undefined", "...a: []", "...a", "private a", "private readonly a", "private { b }", "@dec a", "a?, b?", "a: typeof a", "{ a: { b } }: any", "a: string, a: number", "a: any = {}"]
CHARS = list("(){}[]<>,;:=.?!&|+-`'\"\n /*@#\\$") + ["await ", "async ", "for ", "=> ", "<T>", "...", "?.", "??", "\u2028", "\u00e9\U0001F600", "\r\n", "static ", "readonly ", "declare ", "abstract ", "export ", "using ", "\x00", "0x", "//", "/**", "*/", "${", "class ", "enum ", "namespace "]
TYPE_AT = re.compile(r"\b(any|unknown|string|number|boolean|void|never|undefined|null|object|symbol|bigint|Promise<\w+>|\w+\[\])\b")
EXPR_AT = re.compile(r"(?<![\w.'\"`])(?:[a-z]\w*|\d+|'[^'\n]*'|\"[^\"\n]*\"|\[\]|\{\}|\(\))(?![\w:'\"`])")
PARAM_AT = re.compile(r"\(([^()\n]*)\)(?=\s*(?:=>|\{|:))")
RHS_AT = re.compile(r"(?<==> )[^;\n]+|(?<=return )[^;\n]+|(?<== )[^;\n]+")


def _at(c, r, rx, pool, g=0):
    m = list(rx.finditer(c))
    if not m:
        return c
    x = r.choice(m)
    return c[:x.start(g)] + r.choice(pool) + c[x.end(g):]


def typed(c, r, others):
    """Mostly well-formed programs with other types and expressions."""
    for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
        k = r.randrange(7)
        if k <= 1:
            c = _at(c, r, TYPE_AT, TYPES)
        elif k <= 3:
            c = _at(c, r, EXPR_AT, EXPRS)
        elif k == 4:
            c = _at(c, r, PARAM_AT, PARAMS, 1)
        elif k == 5:
            c = _at(c, r, RHS_AT, EXPRS)
        else:
            ln = c.split("\n")
            ln.insert(r.randrange(len(ln) + 1), r.choice(r.choice(others).split("\n")))
            c = "\n".join(ln)
    return c


def garbled(c, r, others=None):
    """Mostly malformed programs."""
    k = r.randrange(8)
    if k <= 2:
        return c[:r.randrange(len(c) + 1)] + r.choice(["", "\n", "\n\n\n", " ", " /*", "\\"])
    for _ in range(r.randint(1, 3)):
        if not c:
            break
        i = r.randrange(len(c))
        j = min(len(c), i + r.randint(1, 6))
        w = r.randrange(4)
        if w == 0:
            c = c[:i] + c[j:]
        elif w == 1:
            c = c[:i] + r.choice(CHARS) + c[i:]
        elif w == 2:
            k2 = r.randrange(len(c))
            c = c[:i] + c[k2:k2 + 10] + c[j:]
        else:
            c = c[:i] + c[i:j] * 2 + c[j:]
    return c


def jsdoc(c):
    """The program as JavaScript with its types in JSDoc comments (roughly)."""
    c = re.sub(r"\bdeclare (?:const|let|var) (\w+): ([^;\n=]+);", r"/** @type {\2} */ let \1;", c)
    c = re.sub(r"\btype (\w+)(?:<\w+>)? = ([^;\n]+);", r"/** @typedef {\2} \1 */", c)
    c = re.sub(r"\b(\w+(?:\.\w+)*) as ([\w\[\]|& ]+\w)", r"/** @type {\2} */ (\1)", c)
    c = re.sub(r"\b(?:const|let|var) (\w+): ([^;\n=]+) =", r"/** @type {\2} */ const \1 =", c)
    c = re.sub(r"\bfunction (\w+)\((\w+): ([^(),\n]+)\)", r"/** @param {\3} \2 */ function \1(\2)", c)
    c = re.sub(r"^\s*interface[^{}\n]*\{[^{}]*\}", "", c, flags=re.M)
    return c


EOL = [("\r\n",), ("\r",), ("\u2028",), ("\u2029",), ("\n\n",), ("\n", "\r\n", "\r", "\u2028")]


def eol(c, r):
    t = r.choice(EOL)
    return "".join(r.choice(t) if x == "\n" else x for x in c)


RECURSIVE = """type T<X> = T<[X]>[];
type T<X> = readonly T<[X]>[];
type T<X> = [T<[X]>, T<X[]>, {}];
type T<X> = [T<X>];
type T<X> = T<X>[] | string;
type T<X> = readonly [T<X[]>, X];
interface T<X> { a: T<[X]>; m(x: T<X[]>): T<{ q: X }>; readonly b: X; [k: string]: any }
interface T<X> extends Array<T<[X]>> { z: X }
interface T<X> extends Promise<X> { t: T<[X]> }
interface T<X> { then(f: (v: X) => void, r?: (e: T<X[]>) => void): T<X> }
interface T<X> { (a: T<[X]>): T<X[]>; new (a: T<X>): T<[X]>; x: X }
interface T<X> { readonly [k: string]: T<[X]>; readonly [k: number]: T<X[]> }
class T<X> { a!: T<[X]>; #p = 1; private q?: T<X[]>; m(): T<X> { return this as any; } static s: T<any>; constructor(x?: T<X>) {} }
class T<X> extends Map<T<[X]>, T<X[]>> { x!: X }
class T<X> extends Set<T<X>> { toString() { return ""; } x!: X }
class T<X> extends Error { c!: T<[X]>; cause: T<X[]>; }
type T<X> = () => T<[X]>;
type T<X> = (x: T<[X]>) => Promise<T<X[]>>;
type T<X> = Promise<{ r: T<[X]> }> | Promise<X>;
type T<X> = { [K in "a" | "b"]: T<[X]> };
type T<X> = { readonly a: Readonly<T<[X]>>; b?: Partial<T<X[]>> };
type T<X> = { a: T<X> } & { b: T<[X]> };
type T<X> = { kind: "a"; n: T<[X]> } | { kind: "b"; n?: T<X[]> } | null;
type T<X> = X extends string ? [T<[X]>] : X extends any[] ? { l: T<X[]> } : never;
type T<X> = Iterable<T<[X]>>;
type T<X> = AsyncIterable<T<[X]>> & { x: X };
type T<X> = Record<string, T<[X]>[]>;
type T<X> = (T<[X]> | X)[];
type T<X> = Map<X, T<[X]>>;
interface A<X> { t: T<X[]> } interface T<X> { a: A<[X]> }""".split("\n")
USES = """declare let v: T<string>, w: T<any>, o: T<string> | undefined, b: boolean;
`${v}`; String(v); "" + v; v + v; v.toString(); [v].join(); -v; +v; !v; !!v; void v; typeof v; delete (v as any)[0]; ({ ...v }); [...(v as any)]; [...v]; v as T<number>; v!; o!; <T<string>>v; v as unknown as T<any>;
v ? 1 : 2; v && 1; v || w; v ?? w; o ?? v; if (v) {} while (o) { break; } v === w; v == null; o?.a; o && o.a; o && o[0]; v[0]; v.a; v.a.a; v.m?.(v); v(w); new v(w); v`x`; v.sort(); v.toSorted(); v.filter(x => x)[0]; v.find(x => x); v.reduce((p, q) => p, {} as T<any>);
async function f1() { await v; await w; for await (const x of v) {} for (const x of v) {} for (const x in v) {} return v; }
function f2(x: T<string>, y: Readonly<T<string>>, ...z: T<string>[]): T<string> { return w; }
function f3<P extends T<string>>(x: P): P { return x as any; }
const g = (): Promise<T<string>> => Promise.reject(v); new Promise<T<string>>((res, rej) => { rej(v); res(v); }); Promise.all([v, w]); v.then(x => x, y => y); v.catch(() => {}); v.finally(() => {}); f1();
function* h(): Generator<T<string>> { yield v; yield* v as any; }
try { throw v; } catch (e) { throw w; }
const { a, ...r } = v; const [c0 = 1, ...c1] = v; ({ a: b as any } = v as any); v.a = w; v[0] = v; o ??= v; v += w;
const s1: T<string> = w; const s2: T<any> = v; const s3: Set<T<any>> = new Set<T<string>>(); f2(w, v); f2(...v); f2(v, ...w); f3(v); f3<T<string>>(v);
switch (v) { case w: break; } switch (v.kind) { case "a": break; }
class C extends (v as any) { readonly p = v; private q = v; get z(): T<string> { return v; } set z(x: T<any>) {} m(this: T<string>, x = v): T<string> { return v; } static n: T<string>; }
class D implements T<string> { a = v; m() { return v; } }
const k = { v, [v as any]: v, m: v.m, async n() { return v; } }; const { m } = v; v.m; setTimeout(v as any); setTimeout(async () => v); [1].forEach(async () => v); if (f1()) {} const cb: () => void = async () => v; const cb2: () => void = () => v;
type Y = T<string> | T<string> | T<any>; type Z = T<string> & T<string>; let dflt: T<string> = v satisfies T<string>; enum E { A } v === E.A; v.includes(v as any); v.indexOf(v as any) !== -1; v.match(/a/); v["a"]; v.length === 0; Boolean(v); Number(v); Object.keys(v).length;
""".split("\n")


def recursive(r):
    """Programs that use values of a recursive type in every way, line by line."""
    out = []
    for d in RECURSIVE:
        uses = USES[1:]
        r.shuffle(uses)
        out.append("export {};\n" + d + "\n" + "\n".join([USES[0]] + uses))
        out.append("export {};\n" + d.replace("<X>", "<X = string>").replace("T<", "T1<").replace("T1<X = string>", "T<X = string>", 1).replace("T1<", "T<") + "\n" + "\n".join([USES[0]] + uses))
    return out
