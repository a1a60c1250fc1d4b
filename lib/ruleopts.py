"""The options of the rules as documented: name -> (default, other values).  A dict in place of the default is a group: the option is a
boolean or an object with these members; GROUP gives what the group means when it is left out and what its booleans mean."""
import random
LIB = [{"from": "lib", "name": ["Error", "URL", "URLSearchParams"]}]
F = lambda *names: {n: (False, [True]) for n in names}
T = lambda *names: {n: (True, [False]) for n in names}
ALLOW = lambda *names: ([], [list(names), [{"from": "file", "name": list(names)}], [{"from": "lib", "name": ["Promise", "RegExp", "Date", "Error"]}]])
OPTIONS = {
    "consistent-return": F("treatUndefinedAsUnspecified"),
    "consistent-type-exports": F("fixMixedExportsWithInlineTypeSpecifier"),
    "dot-notation": dict(F("allowIndexSignaturePropertyAccess", "allowPrivateClassPropertyAccess", "allowProtectedClassPropertyAccess"), **T("allowKeywords"), allowPattern=("", ["^[a-z]+(_[a-z]+)+$", "^a"])),
    "no-base-to-string": dict(F("checkUnknown"), ignoredTypeNames=(["Error", "RegExp", "URL", "URLSearchParams"], [[], ["Foo", "A"], ["RegExp"]])),
    "no-confusing-void-expression": F("ignoreArrowShorthand", "ignoreVoidOperator", "ignoreVoidReturningFunctions"),
    "no-deprecated": dict(allow=ALLOW("a", "A", "A.b", "foo", "deprecatedFunction")),
    "no-duplicate-type-constituents": F("ignoreIntersections", "ignoreUnions"),
    "no-floating-promises": dict(F("checkThenables", "ignoreIIFE"), **T("ignoreVoid"), allowForKnownSafeCalls=ALLOW("it", "myAsyncFunction"), allowForKnownSafePromises=ALLOW("SafePromise", "Foo", "Bar")),
    "no-meaningless-void-operator": F("checkNever"),
    "no-misused-promises": dict(T("checksConditionals", "checksSpreads"), checksVoidReturn=(T("arguments", "attributes", "inheritedMethods", "properties", "returns", "variables"), None)),
    "no-misused-spread": dict(allow=ALLOW("Nothing", "string", "Foo", "A")),
    "no-unnecessary-boolean-literal-compare": T("allowComparingNullableBooleansToFalse", "allowComparingNullableBooleansToTrue"),
    "no-unnecessary-condition": dict(F("checkTypePredicates"), allowConstantLoopConditions=("never", ["always", "only-allowed-literals", True])),
    "no-unnecessary-type-assertion": dict(F("checkLiteralConstAssertions"), typesToIgnore=([], [["Foo"], ["string"], ["any"]])),
    "no-unsafe-member-access": F("allowOptionalChaining"),
    "only-throw-error": dict(T("allowRethrowing", "allowThrowingAny", "allowThrowingUnknown"), allow=ALLOW("CustomError", "Foo")),
    "prefer-nullish-coalescing": dict(F("ignoreBooleanCoercion", "ignoreIfStatements", "ignoreMixedLogicalExpressions", "ignoreTernaryTests"), **T("ignoreConditionalTests"), ignorePrimitives=(F("bigint", "boolean", "number", "string"), None)),
    "prefer-optional-chain": dict(F("allowPotentiallyUnsafeFixesThatModifyTheReturnTypeIKnowWhatImDoing", "requireNullish"), **T("checkAny", "checkBigInt", "checkBoolean", "checkNumber", "checkString", "checkUnknown")),
    "prefer-promise-reject-errors": dict(F("allowEmptyReject", "allowThrowingAny", "allowThrowingUnknown"), allow=ALLOW("CustomRejection", "Foo")),
    "prefer-readonly": F("onlyInlineLambdas"),
    "prefer-readonly-parameter-types": dict(F("ignoreInferredTypes", "treatMethodsAsReadonly"), **T("checkParameterProperties"), allow=ALLOW("Foo", "Bar")),
    "prefer-string-starts-ends-with": dict(allowSingleElementEquality=("never", ["always"])),
    "promise-function-async": dict(T("allowAny", "checkArrowFunctions", "checkFunctionDeclarations", "checkFunctionExpressions", "checkMethodDeclarations"), allowedPromiseNames=([], [["SPromise"], ["PromiseType"], ["Promise"]])),
    "require-array-sort-compare": T("ignoreStringArrays"),
    "restrict-plus-operands": dict(T("allowAny", "allowBoolean", "allowNullish", "allowNumberAndString", "allowRegExp"), **F("skipCompoundAssignments")),
    "restrict-template-expressions": dict(T("allowAny", "allowBoolean", "allowNullish", "allowNumber", "allowRegExp"), **F("allowArray", "allowNever"), allow=(LIB, [[], ["Promise"], [{"from": "lib", "name": ["Promise"]}], [{"from": "file", "name": ["Base", "Foo"]}]])),
    "strict-boolean-expressions": dict(F("allowAny", "allowNullableBoolean", "allowNullableNumber", "allowNullableString", "allowNullableEnum"), **T("allowNullableObject", "allowString", "allowNumber")),
    "strict-void-return": F("allowReturnAny"),
    "switch-exhaustiveness-check": dict(T("allowDefaultCaseForExhaustiveSwitch"), **F("considerDefaultExhaustiveForUnions", "requireDefaultForNonUnion"), defaultCaseCommentPattern=(None, ["^skip\\sdefault", "no default"])),
    "unbound-method": F("ignoreStatic"),
}
RETURN_AWAIT = ("in-try-catch", ["always", "error-handling-correctness-only", "never"])


def default(d):
    """What the option means when left out, spelled out."""
    return {k: v[0] for k, v in d[0].items()} if isinstance(d[0], dict) else d[0]


def some(rule, rng):
    """Random options of a rule, each left out, at its default or at another value; None if the rule has none."""
    if rule == "return-await":
        return rng.choice([None, RETURN_AWAIT[0]] + RETURN_AWAIT[1])
    if rule not in OPTIONS:
        return None
    o = {}
    for k, d in OPTIONS[rule].items():
        if rng.random() < .4:
            continue
        if isinstance(d[0], dict):
            o[k] = rng.choice([True, False, {a: rng.choice([True, False]) for a in d[0] if rng.random() < .7}])
        else:
            v = rng.choice([d[0]] + d[1] + d[1])
            if v is not None:
                o[k] = v
    return o


if __name__ == "__main__":
    import json, glob
    for f in sorted(glob.glob("/repo/internal/rules/*/schema.json")):
        r = f.split("/")[-2].replace("_", "-")
        d = json.load(open(f))["definitions"].get(f.split("/")[-2] + "_options", {}).get("properties", {})
        for k, v in d.items():
            mine = OPTIONS[r][k]
            if not isinstance(mine[0], dict) and v.get("default") != mine[0]:
                print("differs", r, k, v.get("default"), mine[0])
        print(r, set(OPTIONS.get(r, {})) ^ set(d) or "")
