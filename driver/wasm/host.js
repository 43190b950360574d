// Runs the driver's WebAssembly module, speaking the protocol of the native drivers: messages in
// and out, each after its length in four bytes.
const fs = require('fs');
const x = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(process.argv[2])), {}).exports;
const mem = () => Buffer.from(x.memory.buffer);
function read(n) {
  const b = Buffer.alloc(n);
  for (let at = 0; at < n; ) {
    let k;
    try {
      k = fs.readSync(0, b, at, n - at, null);
    } catch (e) {
      if (e.code === 'EAGAIN') continue;
      throw e;
    }
    if (k === 0) process.exit(0);
    at += k;
  }
  return b;
}
function write(b) {
  for (let at = 0; at < b.length; ) at += fs.writeSync(1, b, at, b.length - at);
}
function answer() {
  const b = mem().subarray(x.answer() >>> 0, (x.answer() >>> 0) + (x.answer_len() >>> 0));
  const n = Buffer.alloc(4);
  n.writeUInt32LE(b.length);
  write(Buffer.concat([n, b]));
}
x.start();
answer();
for (;;) {
  const b = read(read(4).readUInt32LE());
  const p = x.room(b.length) >>> 0;
  b.copy(mem(), p);
  try {
    x.run();
  } catch (e) {
    console.error(String(e && e.stack));
    process.exit(97);
  }
  answer();
}
