// stand-in for dat.gui: remembers what it is given
export class GUI {
  constructor() { this.closed = false; this.folders = []; this.controls = []; GUI.made.push(this); }
  addFolder(name) { const f = new GUI(); GUI.made.pop(); f.name = name; this.folders.push(f); return f; }
  add(obj, key, ...args) {
    const c = {obj, key, args, label: key, domElement: {addEventListener() {}},
      listen() { return c; }, name(t) { c.label = t; return c; }, onChange(f) { c.changed = f; return c; }, onFinishChange(f) { c.changed = f; return c; }};
    this.controls.push(c);
    return c;
  }
  open() { this.closed = false; }
  close() { this.closed = true; }
}
GUI.made = [];
