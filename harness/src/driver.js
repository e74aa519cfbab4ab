// Calls the addon for the harness: one JSON array per line, [method, ...arguments].
const m = { exports: {} };
process.dlopen(m, process.env.ADDON);
let files = new m.exports.NodejsLspFiles();
let rest = "";
process.stdin.setEncoding("utf8");
process.stdin.on("data", (data) => {
  rest += data;
  const lines = rest.split("\n");
  rest = lines.pop();
  let out = "";
  for (const line of lines) {
    const [method, ...args] = JSON.parse(line);
    let answer;
    try {
      if (method === "new") {
        files = new m.exports.NodejsLspFiles();
        answer = { ok: null };
      } else if (method === "basic") {
        answer = { ok: m.exports.basic(...args) };
      } else {
        const value = files[method](...args);
        answer = { ok: value === undefined ? null : value };
      }
    } catch (e) {
      answer = { thrown: String(e) };
    }
    out += JSON.stringify(answer) + "\n";
  }
  process.stdout.write(out);
});
process.stdin.on("end", () => process.exit(0));
