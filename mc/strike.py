"""Faults and pauses at every point of a run of the command, and what is left behind."""
import os
import re
import struct
import sys
import types
import zlib

import numpy as np

import boot
import files

TOOL = 4
FILE_EVENTS = ('open', 'os.rename', 'os.remove', 'os.link', 'os.symlink', 'os.truncate', 'os.mkdir', 'os.chmod')


class Strike:
    """Counts the points of a run (every line of the package that is executed, every file below the
    given directories that is opened, renamed or removed) and acts at the k-th of them, or, to pause,
    at all of `k` (None: at every one).  With lines='visible' a line counts only if the run has done
    something since the last point that other processes can notice or that depends on them (a system
    call that Python audits, or any that reads or writes data): the lines between are equivalent."""

    def __init__(self, action, k, out=None, lines=None, gate=None, roots=None):
        self.action, self.k, self.out, self.gate = action, k, out, gate
        self.lines = action != 'refuse' if lines is None else lines
        self.seen, self.on = 0, False
        self.visible, self.calls, self.io = True, None, None
        self.roots = tuple(x + os.sep for x in roots or [os.getcwd()])
        self.package = os.path.join(os.path.realpath(boot.REPO), 'occuprob') + os.sep

    def start(self):
        sys.addaudithook(self.audit)
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'strike')
        if self.lines == 'visible':
            self.io = os.open('/proc/self/io', os.O_RDONLY)
        self.on = True
        if self.lines:
            mon.register_callback(TOOL, mon.events.PY_START, self.entered)
            mon.register_callback(TOOL, mon.events.LINE, self.line)
            mon.set_events(TOOL, mon.events.PY_START)
            for name, module in list(sys.modules.items()):
                if name.split('.')[0] == 'occuprob':
                    self.watch(vars(module).values())

    def watch(self, things):
        for x in things:
            if isinstance(x, type):
                self.watch(vars(x).values())
            code = x if isinstance(x, types.CodeType) else getattr(x, '__code__', None)
            if isinstance(code, types.CodeType) and \
                    os.path.realpath(code.co_filename).startswith(self.package):
                sys.monitoring.set_local_events(TOOL, code, sys.monitoring.events.LINE)
                self.watch(c for c in code.co_consts if isinstance(c, types.CodeType))

    def stop(self):
        self.on = False
        sys.monitoring.free_tool_id(TOOL)
        if self.out is not None:
            os.write(self.out, str(self.seen).encode())

    def point(self):
        self.seen += 1
        here = self.seen - 1
        if self.action == 'pause':
            if self.k is None or here in self.k:
                os.write(self.gate[0], b'p')
                os.read(self.gate[1], 1)
        elif here == self.k:
            self.on = False
            if self.action == 'kill':
                os._exit(137)
            if self.action == 'memory':
                raise MemoryError('injected')
            if self.action == 'refuse':
                raise OSError(24, 'Too many open files (injected)')
            raise KeyboardInterrupt

    def entered(self, code, _):
        if self.on:
            self.watch([code])
        return sys.monitoring.DISABLE

    def line(self, code, number):
        if not self.on:
            return
        if self.io is not None:
            # this reading is itself counted in the next one
            text = os.pread(self.io, 400, 0)
            calls = [int(x) for x in re.findall(rb'sysc[rw]: (\d+)', text)]
            same = self.calls is not None and calls == [self.calls[0] + 1, self.calls[1]]
            self.calls = calls
            if same and not self.visible:
                return
            self.visible = False
        self.point()
        if self.io is not None:
            self.calls = [int(x) for x in re.findall(rb'sysc[rw]: (\d+)', os.pread(self.io, 400, 0))]

    def audit(self, event, args):
        if not self.on:
            return
        if event.split('.')[0] in ('open', 'os', 'fcntl', 'socket', 'subprocess', 'shutil', 'tempfile', 'mmap'):
            self.visible = True
        if event not in FILE_EVENTS:
            return
        if args and isinstance(args[0], (str, bytes)) and \
                os.path.abspath(os.fsdecode(args[0])).startswith(self.roots):
            self.point()


def complete(name, blob, ref, plot):
    """Why the output is not complete, or None."""
    if name.endswith('.dat'):
        if blob == ref:
            return None
        rows, want = ([line.split() for line in x.decode('latin-1').splitlines()] for x in (blob, ref))
        try:
            a, b = (np.array([[float(v) for v in r] for r in x]) for x in (rows, want))
        except ValueError:
            return 'not a table'
        if a.shape != b.shape:
            return f'{a.shape[0] if a.ndim else 0} rows of {b.shape[0]}'
        return None if files.same(a, b) and blob.endswith(b'\n') else 'other numbers'
    if plot == 'png':
        pos = 8
        if blob[:8] != ref[:8]:
            return 'no PNG image'
        while pos < len(blob):
            if pos + 8 > len(blob):
                return 'cut PNG image'
            size, kind = struct.unpack('>I4s', blob[pos:pos + 8])
            data = blob[pos + 4:pos + 8 + size]
            end = blob[pos + 8 + size:pos + 12 + size]
            if len(end) < 4 or struct.unpack('>I', end)[0] != zlib.crc32(data):
                return 'cut PNG image'
            pos += 12 + size
            if kind == b'IEND':
                return None if pos == len(blob) else 'data after the PNG image'
        return 'PNG image without end'
    if plot == 'pdf':
        m = re.search(rb'startxref\s+(\d+)\s+%%EOF\s*\Z', blob)
        if not m or not blob[int(m.group(1)):].startswith(b'xref'):
            return 'cut PDF file'
        return None
    import xml.etree.ElementTree as ET
    try:
        ET.fromstring(blob)
    except ET.ParseError as exc:
        return f'cut SVG file ({exc})'
    return None if len(blob) > 0.9 * len(ref) else 'SVG file too small'


def box_state(box):
    out = {}
    for base, dirs, names in os.walk(box.path):
        for n in names + dirs:
            full = os.path.join(base, n)
            rel = os.path.relpath(full, box.path)
            if os.path.isdir(full) or not os.path.isfile(full):
                out[rel] = None
            else:
                with open(full, 'rb') as fh:
                    out[rel] = fh.read()
    return out
