// node render.js <repo> <prime> <name> <outdir>: renders the field templates of the working tree.
const fs = require("fs"), path = require("path");
const Module = require("module");
process.env.NODE_PATH = path.join(__dirname, "shim") + (process.env.NODE_PATH ? ":" + process.env.NODE_PATH : "");
Module._initPaths();
const [repo, prime, name, out] = process.argv.slice(2);
const { buildZqField } = require(path.join(repo, "index.js"));
buildZqField(BigInt(prime), name).then((r) => {
    const n = name.toLowerCase();
    fs.mkdirSync(out, { recursive: true });
    const w = (f, s) => fs.writeFileSync(path.join(out, f), s);
    w(n + ".asm", r.asm); w(n + ".cpp", r.cpp); w(n + ".hpp", r.hpp); w(n + "_element.hpp", r.element_hpp);
    w(n + "_generic.cpp", r.generic_cpp); w(n + "_raw_generic.cpp", r.raw_generic_cpp); w(n + "_raw_arm64.s", r.raw_arm64_s);
}).catch((e) => { console.error(e); process.exit(3); });
