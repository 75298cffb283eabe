// Minimal stand-in for the npm package "big-integer", backed by native BigInt.
"use strict";
function conv(v, base) {
    if (v instanceof BI) return v.v;
    if (typeof v === "bigint") return v;
    if (typeof v === "number") return BigInt(v);
    if (typeof v === "string") {
        if (base === undefined || base === 10) {
            return /^0x/i.test(v) ? BigInt(v) : BigInt(v);
        }
        let neg = false, s = v;
        if (s[0] === "-") { neg = true; s = s.slice(1); }
        let r = 0n; const b = BigInt(base);
        for (const c of s) { r = r * b + BigInt(parseInt(c, base)); }
        return neg ? -r : r;
    }
    if (v === undefined) return 0n;
    throw new Error("big-integer shim: cannot convert " + v);
}
function mod(a, b) { return a % b; }
class BI {
    constructor(v) { this.v = v; }
    bitLength() { let x = this.v < 0n ? -this.v - 1n : this.v; return new BI(x === 0n ? 0n : BigInt(x.toString(2).length)); }
    valueOf() { return Number(this.v); }
    toJSNumber() { return Number(this.v); }
    toString(base) { return this.v.toString(base || 10); }
    toJSON() { return this.toString(); }
}
const bin = {
    shiftLeft: (a, b) => (b >= 0n ? a << b : a >> -b), shiftRight: (a, b) => (b >= 0n ? a >> b : a << -b),
    and: (a, b) => a & b, or: (a, b) => a | b, xor: (a, b) => a ^ b,
    minus: (a, b) => a - b, subtract: (a, b) => a - b, plus: (a, b) => a + b, add: (a, b) => a + b,
    times: (a, b) => a * b, multiply: (a, b) => a * b, divide: (a, b) => a / b, over: (a, b) => a / b,
    mod: mod, remainder: mod, pow: (a, b) => a ** b,
    modInv: (a, n) => {
        let t = 0n, nt = 1n, r = n, nr = ((a % n) + n) % n;
        while (nr !== 0n) { const k = r / nr; [t, nt] = [nt, t - k * nt]; [r, nr] = [nr, r - k * nr]; }
        if (r !== 1n) throw new Error("not co-prime");
        return t < 0n ? t + n : t;
    },
};
for (const k of Object.keys(bin)) BI.prototype[k] = function (b) { return new BI(bin[k](this.v, conv(b))); };
const cmp = { leq: (a, b) => a <= b, lt: (a, b) => a < b, geq: (a, b) => a >= b, gt: (a, b) => a > b, eq: (a, b) => a === b, neq: (a, b) => a !== b,
    lesserOrEquals: (a, b) => a <= b, lesser: (a, b) => a < b, greaterOrEquals: (a, b) => a >= b, greater: (a, b) => a > b, equals: (a, b) => a === b, notEquals: (a, b) => a !== b };
for (const k of Object.keys(cmp)) BI.prototype[k] = function (b) { return cmp[k](this.v, conv(b)); };
BI.prototype.modPow = function (e, n) { let b = this.v, x = conv(e), m = conv(n), r = 1n; b %= m; while (x > 0n) { if (x & 1n) r = r * b % m; b = b * b % m; x >>= 1n; } return new BI(r); };
BI.prototype.isZero = function () { return this.v === 0n; };
BI.prototype.isOdd = function () { return (this.v & 1n) === 1n; };
BI.prototype.isEven = function () { return (this.v & 1n) === 0n; };
BI.prototype.isNegative = function () { return this.v < 0n; };
BI.prototype.negate = function () { return new BI(-this.v); };
BI.prototype.abs = function () { return new BI(this.v < 0n ? -this.v : this.v); };
BI.prototype.next = function () { return new BI(this.v + 1n); };
BI.prototype.prev = function () { return new BI(this.v - 1n); };
BI.prototype.square = function () { return new BI(this.v * this.v); };
BI.prototype.not = function () { return new BI(~this.v); };
BI.prototype.compare = function (b) { const x = conv(b); return this.v < x ? -1 : this.v > x ? 1 : 0; };
function bigInt(v, base) { return new BI(conv(v, base)); }
bigInt.zero = new BI(0n); bigInt.one = new BI(1n); bigInt.minusOne = new BI(-1n);
bigInt.isInstance = (x) => x instanceof BI;
module.exports = bigInt;
