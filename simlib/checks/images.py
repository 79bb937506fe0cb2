"""C21: the loader of 32-bit library images, compiled as 32-bit code inside a freestanding simulator host."""
import random, struct
from ..engine import Check, rng_of
from .. import build

U32 = lambda v: struct.pack('<I', v & 0xffffffff)
U16 = lambda v: struct.pack('<H', v & 0xffff)
WORDS = ['gen_getinfo', 'get_bits', 'f', 'selftest', 'DllMain', 'x' * 40, '_a@4']

class Image:
    """A valid image made from a seed, with all that the loader must find in it."""
    def __init__(self, o):
        r = random.Random(o['seed'])
        self.base = r.choice([0x400000, 0x10000000, 0x7fff0000, 0, 0x20001000])
        pe = r.choice([0x40, 0x80, 0x84, 0xF8]); self.pe = pe
        nfun = o['nfun']; names = WORDS[:1] + r.sample(WORDS[1:], min(len(WORDS) - 1, max(0, o['nnames'] - 1))) if o['nnames'] else []
        nfun = max(nfun, len(names)); r.shuffle(names)
        parts = [('code', r.choice([64, 1000, 4096, 6000]))] + [('data', r.choice([16, 500, 4000])) for _ in range(o['ndata'])]
        if nfun or r.random() < .3: parts.append(('exp', 0))
        if o['reloc']: parts.append(('rel', 0))
        if o['imp']: parts.append(('imp', 0))
        first = parts[0]; rest = parts[1:]; r.shuffle(rest); parts = [first] + rest
        va = r.choice([0x1000, 0x2000]); self.rva = {}; blobs = []; datas = []
        for k, n in parts:
            self.rva[k] = va
            if k in ('code', 'data'):
                b = bytearray(r.randbytes(n)); datas.append((va, len(blobs), n))
            elif k == 'exp':
                n1 = nfun; off = 40; fa = off; off += 4 * n1; na = off; off += 4 * len(names); oa = off; off += 2 * len(names) + (2 * len(names) & 2)
                txt = bytearray(b'lib.dll\0'); pos = []
                for w in names: pos.append(va + off + len(txt)); txt += w.encode() + b'\0'
                ords = r.sample(range(n1), len(names)) if n1 else []
                addrs = [first_va + r.randrange(first_len) for _ in range(n1)]
                b = bytearray(U32(0) + U32(r.getrandbits(32)) + U32(0) + U32(va + off) + U32(1) + U32(n1) + U32(len(names)) + U32(va + fa) + U32(va + na) + U32(va + oa))
                b += b''.join(map(U32, addrs)) + b''.join(map(U32, pos)) + b''.join(map(U16, ords)); b += b'\0' * (off - len(b)) + txt
                self.syms = {w: addrs[x] for w, x in zip(names, ords)}; self.skip = [(va + fa, 4 * n1), (va + na, 4 * len(names))]
                self.fields_exp = [20, 24, 28, 32, 36] + [fa + 4 * i for i in range(n1)] + [na + 4 * i for i in range(len(names))]; self.ords = [oa + 2 * i for i in range(len(names))]
            elif k == 'rel':
                b = bytearray(); self.relocs = []; self.fields_rel = []; self.heads = []; self.rel = b
                for va0, _, n in datas:
                    for page in range(va0 & ~0xfff, va0 + n, 0x1000):
                        c = [x for x in range(max(va0, page), min(va0 + n, page + 0x1000) - 3, 4)]
                        c = sorted(r.sample(c, min(len(c), r.choice([1, 3, 20]))))
                        if not c: continue
                        e = [0x3000 | x - page for x in c]; self.relocs += c
                        if len(e) & 1: e.append(0)
                        self.heads.append(len(b)); self.fields_rel += [len(b), len(b) + 4] + [len(b) + 8 + 2 * i for i in range(len(e))]
                        b += U32(page) + U32(8 + 2 * len(e)) + b''.join(map(U16, e))
                self.heads = [x for x in self.heads] + [len(b)]; self.fields_rel.append(len(b)); b += U32(0) * r.choice([1, 2])
            else:
                b = bytearray(U32(va + 40 if o['imp'] == 2 else 0) + bytes(60))
            if k == 'code': first_va, first_len = va, n
            phys = len(b) + (-len(b) % r.choice([1, 16, 512])); b += bytes(phys - len(b))
            virt = r.choice([phys, len(b), max(1, phys - r.randrange(phys)), phys + r.choice([1, 100, 5000])])
            blobs.append((k, va, virt, b)); va += (max(virt, phys) + 0xfff) & ~0xfff
        if not hasattr(self, 'syms'): self.syms = {}; self.skip = []
        if not hasattr(self, 'relocs'): self.relocs = []
        if 'exp' not in self.rva: self.fields_exp = []; self.ords = []
        if 'rel' not in self.rva: self.fields_rel = []
        nsec = len(blobs); hdr = pe + 0xF8 + 0x28 * nsec; h = bytearray(r.randbytes(hdr))
        def put(off, b): h[off:off + len(b)] = b
        put(0, b'MZ'); put(0x3C, U32(pe)); put(pe, b'PE\0\0'); put(pe + 4, U16(0x14C)); put(pe + 6, U16(nsec)); put(pe + 0x14, U16(0xE0)); put(pe + 0x18, U16(0x10B))
        put(pe + 0x28, U32(self.rva['code'])); put(pe + 0x34, U32(self.base)); put(pe + 0x74, U32(16))
        put(pe + 0x78, bytes(128))
        for k, off in (('exp', 0x78), ('imp', 0x80), ('rel', 0xA0)):
            if k in self.rva: put(pe + off, U32(self.rva[k]))
        body = b''; pos = hdr + (-hdr % r.choice([4, 512])); start = pos; self.at = {}; order = list(range(nsec))
        if r.random() < .2: r.shuffle(order)                            # the order in the file may differ
        for i in order:
            k, va, virt, b = blobs[i]; o1 = pe + 0xF8 + 0x28 * i
            put(o1, r.choice(['.' + k, '.' + k, '.' + k * 2])[:8].encode().ljust(8, b'\0') if r.random() < .8 else r.randbytes(8)); put(o1 + 8, U32(virt) + U32(va) + U32(len(b)) + U32(pos)); self.at.setdefault(k, pos)
            body += bytes(b); pad = -len(b) % r.choice([1, 512]); body += bytes(pad); pos += len(b) + pad; self.used = pos - pad
        self.file = bytes(h) + bytes(start - hdr) + body; self.nsec = nsec; self.hdr = hdr
        self.size = max(va + max(virt, len(b)) for k, va, virt, b in blobs); self.blobs = blobs
    def memory(self, base):
        m = bytearray(self.size)
        for k, va, virt, b in self.blobs: m[va:va + len(b)] = b
        for a in self.relocs: m[a:a + 4] = U32(struct.unpack_from('<I', m, a)[0] + base - self.base)
        return m
    def fields(self):
        """(file offset, size) of every field the loader looks at, by kind"""
        f = {'magic': [(0, 2), (0x3C, 4), (self.pe, 4), (self.pe + 4, 2), (self.pe + 0x18, 2), (self.pe + 0x74, 4)],
             'dirs': [(self.pe + x, 4) for x in (0x78, 0x80, 0xA0)] + [(self.pe + 6, 2), (self.pe + 0x34, 4), (self.pe + 0x28, 4)],
             'sect': [(self.pe + 0xF8 + 0x28 * i + j, 4) for i in range(self.nsec) for j in (8, 12, 16, 20)]}
        if self.fields_exp: f['exp'] = [(self.at['exp'] + x, 4) for x in self.fields_exp] + [(self.at['exp'] + x, 2) for x in self.ords]
        if self.fields_rel: f['rel'] = [(self.at['rel'] + x, 4 if x in self.heads or x - 4 in self.heads else 2) for x in self.fields_rel]
        return f

class C21(Check):
    id = 'C21'; variant = 'X'; wall = 60; quick_cases = 40000; quick_s = 60; thorough_s = 2400; level = 'exploration'
    technique = 'deterministic simulation with fault injection: the loader runs as 32-bit code in a freestanding host that owns its memory, files and failures; every memory access is checked against live allocations; seeded damage of any field, truncation, failing or short reads, seeks, opens and allocations; undamaged images are compared with a reference model of the loaded image'
    rule = 'case: an image built from a seed (1-6 sections, exports, relocations, possibly imports), 0-6 damaged fields or byte runs, possibly truncated, possibly with failing file operations or allocations. Non-trivial: something was damaged or failed; distinct: by the hash of the trace of memory accesses.'
    assumptions = ['little-endian 32-bit x86 code built by gcc; the DOS extender and Windows variants of the memory buffer (VirtualAlloc) are not compiled here', 'imports are documented as unsupported: an image with imports must be rejected']
    real = ['src/pe32loader.c']; stubs = ['C library (freestanding replacement: files, memory, formatted output)']
    level_note = 'sampled damage, not exhaustive'
    def prepare(self):
        if not build.can32():
            print('NOTE: 32-bit programs do not run here: C21 is not decided'); raise SystemExit(0)
        build.host32()
    def cases(self, tier, seed):
        i = 0
        while True: yield self.case(rng_of(self.id, seed, i), tier); i += 1
    def case(self, r, tier):
        o = {'seed': r.randrange(1 << 40), 'nfun': r.choice([0, 1, 2, 3, 5]), 'nnames': r.choice([0, 1, 1, 2, 3, 5]), 'ndata': r.choice([0, 1, 1, 2, 3]), 'reloc': r.choice([0, 1, 1]), 'imp': r.choice([0, 0, 0, 0, 0, 0, 1, 2])}
        c = {'img': o, 'edit': [], 'cut': None, 'fault': [], 'memlimit': r.choice([1, 4]) << 20}
        im = Image(o); k = r.random()
        if k < 0.7:
            f = im.fields(); n = len(im.file)
            for _ in range(r.choice([1, 1, 1, 2, 2, 3, 6])):
                q = r.random()
                if q < 0.08:                                            # a whole structure
                    k1, w, l = r.choice([('s', im.pe + 0xF8 + 0x28 * r.randrange(im.nsec), 0x28), ('s', im.pe + 0xF8 + 0x28 * (im.nsec - 1), 0x28), ('d', im.pe + 0x78, 128), ('h', im.pe, 0xF8)] + [('t', im.at[x], 40) for x in ('exp', 'rel') if x in im.at])
                    off = w; b = r.choice([bytes(l), b'\xff' * l, r.randbytes(l), bytes(r.randrange(1, 256) for _ in range(l)), b'A' * l])
                elif q < 0.2 and 'rel' in im.at:                        # relocation blocks up to the very end of the image
                    heads = im.heads[:-1] or [0]; h = r.choice(heads); off = im.at['rel'] + h + 4
                    b = U32(im.size - im.rva['rel'] - h + r.choice([0, 0, 1, -1, 2, -2, 3, -3, 8]))
                    if r.random() < .7 and h + 8 < len(im.rel): off += 4; b = bytes(len(im.rel) - h - 8); c['edit'].append([off, b.hex()]); off -= 4; b = U32(im.size - im.rva['rel'] - h + r.choice([0, 0, 1, -1, 2, -2]))
                elif q < 0.85:
                    off, w = r.choice(f[r.choice(list(f) + [x for x in f if x != 'magic'])])
                    old = int.from_bytes(im.file[off:off + w], 'little')
                    v = r.choice([0, 1, 2, 3, 7, 8, 9, 0xffffffff, 0xfffffffe, 0x7fffffff, 0x80000000, 0xfffff000, 0x40000000, old + r.choice([1, -1, 2, -2, 4, -4, 8, -8, 0x1000, -0x1000]), im.size, im.size - 1, im.size - 2, im.size - 4, im.size - 7, im.size - 8, im.size - 9, im.size - 40,
                                  im.size - 39, im.size + 1, n, n - 1, r.randrange(1 << 32), r.randrange(im.size + 16), r.randrange(200), im.rva['code'], r.choice(list(im.rva.values())), r.choice([127, 128, 129, 0x10000, 0x20000, 0x80000, 1 << 20])])
                    b = (v & ((1 << 8 * w) - 1)).to_bytes(w, 'little')
                else:
                    off = r.randrange(n); b = r.randbytes(r.choice([1, 1, 2, 4, 16])) if r.random() < .7 else bytes([r.choice([0, 255])]) * r.choice([1, 4, 100])
                c['edit'].append([off, b.hex()])
        if k > 0.6 and r.random() < 0.4:
            c['cut'] = r.choice([r.randrange(len(im.file) + 1), r.randrange(im.hdr + 8), im.used, im.used - 1, im.pe + r.randrange(0xF8), im.hdr - r.randrange(0x28), 0, 1])
        if r.random() < (0.6 if k > 0.7 else 0.1):
            for _ in range(r.choice([1, 1, 2])):
                c['fault'].append(r.choice(['alloc %d 1 fail' % r.randrange(4), 'alloc %d -1 fail' % r.randrange(3), 'open 0 1 fail', 'read_file %d %d %s' % (r.randrange(30), r.choice([1, 1, 2, -1]), r.choice(['fail', 'short'])), 'seek_file %d %d fail' % (r.randrange(30), r.choice([1, 1, 2, -1]))]))
        return c
    def shrink(self, c):
        for k in ('edit', 'fault'):
            for i in range(len(c[k])):
                d = dict(c); d[k] = c[k][:i] + c[k][i + 1:]; yield d
        if c['cut'] is not None: d = dict(c); d['cut'] = None; yield d
        for i, (o, b) in enumerate(c['edit']):
            if len(b) > 8: d = dict(c); d['edit'] = [list(x) for x in c['edit']]; d['edit'][i] = [o, b[:len(b) // 4 * 2]]; yield d
    def play(self, c, p):
        im = Image(c['img']); b = bytearray(im.file)
        for o, x in c['edit']:
            x = bytes.fromhex(x); b[o:o + len(x)] = x[:len(b) - o]
        if c['cut'] is not None: b = b[:c['cut']]
        b = bytes(b); asked = sorted(im.syms) + ['no_such_function', 'gen_getinfo']
        r = p.run('load', {'file:lib.dll': b, 'sym': asked, 'fault': c['fault'], 'memlimit': c['memlimit'], 'max_steps': 400000000})
        if b != im.file: p.probe('damaged'); p.seen.add(r.hash)
        if r.kind != 'exit' or r.code: p.fail('abnormal', '%s: %s' % (r.status, r.note)); return
        a = r.aux; syms = {}; img = None; errm = None; dump = None; live = files = 0; pos = 0
        while pos < len(a):
            e = a.index(b'\n', pos); f = a[pos:e].split(b' '); pos = e + 1
            if f[0] == b'IMG': img = (int(f[1], 16), int(f[2]))
            elif f[0] == b'ERR': errm = a[e - len(b' '.join(f)) + 4:e].strip()
            elif f[0] == b'SYM': syms[b' '.join(f[1:-1]).decode('latin-1')] = None if f[-1] == b'none' else int(f[-1])
            elif f[0] == b'DUMP': n = int(f[1]); dump = a[pos:pos + n]; pos += n + 1
            elif f[0] == b'LIVE': live = int(f[1])
            elif f[0] == b'FILES': files = int(f[1])
        if live or files: p.probe('left over: blocks' if live else 'left over: files')
        if img is None:
            p.probe('rejected')
            if not errm: p.fail('silent', 'the image was rejected without an error message')
        else:
            p.probe('loaded')
            for s, v in syms.items():
                if v is not None and not 0 <= v < img[1]: p.fail('bounds', 'the address of %s is outside of the image (offset %d of %d)' % (s, v, img[1])); return
        clean = b == im.file; fired = any(r.fired.values())
        used = im.used if c['cut'] is not None and not c['edit'] else None
        if c['img']['imp'] == 2 and not c['edit'] and img is not None: p.fail('imports', 'an image with imports was accepted'); return
        magic = not (b[:2] == b'MZ' and b[0x3C:0x40] and len(b) >= 0x40)
        if not magic:
            q = int.from_bytes(b[0x3C:0x40], 'little'); magic = not (b[q:q + 4] == b'PE\0\0' and b[q + 4:q + 6] == U16(0x14C) and b[q + 0x18:q + 0x1A] == U16(0x10B) and b[q + 0x74:q + 0x78] == U32(16))
        if magic and img is not None: p.fail('signature', 'a file without the signatures of the format was accepted'); return
        if c['edit'] and not clean: return
        if c['img']['imp'] == 2: return
        must = (clean or (used is not None and len(b) >= used)) and not fired
        if img is None:
            if must: p.fail('rejected', 'an undamaged image was rejected: %s' % (errm or b'').decode('latin-1'))
            return
        # an intact, cut or unreadable file: if it is accepted, then with all its contents
        want = {s: im.syms.get(s) for s in asked}
        if syms != want: p.fail('symbols', 'function addresses %s instead of %s' % (syms, want)); return
        m = im.memory(img[0])
        if img[1] < im.size or (dump is not None and len(dump) < im.size): p.fail('size', 'the image has %d bytes instead of %d' % (img[1], im.size)); return
        if dump is None: return
        d = bytearray(dump[:im.size])
        for off, n in im.skip + [(0, 256)]: d[off:off + n] = m[off:off + n]
        if d != m:
            i = next(i for i in range(im.size) if d[i] != m[i]); p.fail('contents', 'the loaded image differs from the file at offset %X' % i)
