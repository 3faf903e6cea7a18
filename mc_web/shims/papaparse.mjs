// Stand-in for Papa.parse on comma-separated cells without quotes (all the checks feed it).
export function parse(text, cfg = {}) {
  const errors = [];
  const lines = text.split(/\r\n|\n|\r/);
  const data = [];
  for (const l of lines) {
    if (cfg.skipEmptyLines && l === "") continue;
    data.push(l.split(",").map((c) => {
      if (!cfg.dynamicTyping) return c;
      if (c === "true" || c === "TRUE") return true;
      if (c === "false" || c === "FALSE") return false;
      if (/^\s*-?(\d+\.?|\.\d+|\d+\.\d+)([eE][-+]?\d+)?\s*$/.test(c)) return parseFloat(c);
      return c === "" ? null : c;
    }));
  }
  return { data, errors, meta: {} };
}
export default { parse };
