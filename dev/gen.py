#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = list(observe)
    assert len(title) <= 80, title
    P.append(d)

A, AC, T, TC, E, R, W, K, M = ('arfs/arfs.go', 'arfs/create.go', 'tarfs/tarfs.go', 'tarfs/create.go', 'erofs/erofs.go',
    'erofs/reader.go', 'erofs/writer.go', 'erofs/constants.go', 'memfs/memfs.go')

prop('R07', 'Opened archives are immutable and safe to share between goroutines',
 'After an ar, tar or EROFS archive has been opened, every operation on the file system, on the entries it lists and on the file information it returns may run concurrently with every other one without a data race, and none of them changes what a later operation observes. Two handles opened on the same entry have independent read positions. The only state that may be written after opening is written exactly once, under a once-guard.',
 ['schedules', 'histories'], 'every interleaving of any number of readers on one opened archive, and every sequence of operations',
 'Tests read one archive from one goroutine; a race or a position shared by two handles only shows under particular interleavings.',
 [A, T, E, R], [('per-handle readers', 'arfs.(*entry).openFile, tarfs open, erofs.(*fsEntry)'), ('sync.Once caches', 'erofs.(*dirEntry).getInode, erofs.(*Inode)')],
 ['fs.FS methods of arfs.FS, tarfs.FS, erofs.Filesystem'])
prop('R08', 'Archive content never reaches the host: no host file, process or environment use',
 'Opening, listing, reading, creating and modifying archives and in-memory file systems uses only the readers, writers and file systems the caller passes in. The library never opens, creates, changes or looks up host files, never reads the environment, clock or random source, never starts processes, network connections or goroutines, and never prints.',
 ['inputs', 'histories'], 'every archive content (names and link targets included) and every sequence of calls',
 'Whether a hostile name or link target reaches the host depends on the archive; tests use benign archives and do not observe the host.',
 [A, AC, T, TC, E, R, W, M, 'erofs/owner_unix.go', 'erofs/owner_windows.go', 'readlink_fs.go'], [('reader/writer parameters', 'arfs.Open, tarfs.Open, erofs.Open, erofs.Create, ...')])
prop('W10', 'EROFS structures follow the published on-disk format',
 'Every structure the library writes to or reads from an EROFS image (superblock, compact and extended inodes, directory entries) has the field offsets, widths and total size of the published format, and the magic number, superblock offset, feature flags, layout and file type values are those of the format. All multi-byte fields are little endian and checksums use the Castagnoli polynomial.',
 ['inputs', 'configurations'], 'every image written or read, on every host byte order',
 'The writer is tested through the reader of the same package, so an error made on both sides is invisible; one sample image exercises few fields.',
 [K, E, R, W], [('on-disk structures', 'erofs/constants.go, erofs/erofs.go'), ('encoding/binary transfers', 'erofs/writer.go, erofs/reader.go')])
prop('M01', 'In-memory file system: every lock is released on every path, no deadlock',
 'Every operation of the in-memory file system returns with no lock held on any path, including every error path, and never releases a lock it does not hold. Locks are only nested from a directory to its descendants and no lock is taken twice by one operation, so concurrent operations cannot deadlock; no code supplied by the caller runs while a lock is held.',
 ['schedules', 'inputs', 'histories'], 'every path through every operation and every interleaving of operations',
 'A lock leaked on an error path shows only when a later operation hangs; a lock-order inversion needs two operations in a particular interleaving.',
 [M], [('per-directory mutex', 'memfs.dir.mu')])
prop('M02', 'In-memory file system: shared state is only touched under its lock',
 'Operations of the in-memory file system may run concurrently: every piece of state reachable by two operations is either never modified after it becomes visible or is only read and written with the lock of its directory held. Opened files keep reading the content they were opened with.',
 ['schedules'], 'every interleaving of any number of operations on one in-memory file system',
 'Tests run operations one after another; a missing lock produces a race only in particular interleavings.',
 [M], [('per-directory mutex', 'memfs.dir.mu'), ('replace instead of modify', 'memfs.(*FS).WriteFile')])
prop('M03', 'In-memory file system never shares byte buffers with its caller',
 'A buffer passed to the in-memory file system may be changed by the caller afterwards without changing any stored file, and a buffer obtained from it may be changed without changing any stored file.',
 ['histories'], 'every sequence of writes, reads and later changes to the buffers involved',
 'Tests do not modify their buffers after the call.',
 [M], [('copy on write', 'memfs.(*FS).WriteFile')])
exec(open(__file__.replace('gen.py', 'more.py')).read()) if __import__('os').path.exists(__file__.replace('gen.py', 'more.py')) else None

CLAIM = {
 'R07': ('points-to analysis + interprocedural flow-sensitive effect and once-guard analysis', 'Decided for every function reachable after opening, on the SSA form, with a points-to analysis that over-approximates aliasing.'),
 'R08': ('deny-by-default effect analysis of every external reference in the type-checked program', 'Decided for every reference in the library; relies on the table of effect-free standard packages.'),
 'W10': ('type layout and constant analysis against the format specification', 'Decides layout, constants, byte order and polynomial; not the values stored in the fields.'),
 'M01': ('path-sensitive lock typestate and lock-order analysis', 'All paths of all operations with callees in place.'),
 'M02': ('points-to + lockset analysis', 'All shared accesses of all operations.'),
 'M03': ('points-to (escape/alias) analysis', 'All byte slices that cross the interface.'),
}
NA = {}
if 'MORECLAIM' in globals(): CLAIM.update(MORECLAIM)
if 'MORENA' in globals(): NA.update(MORENA)
P.sort(key=lambda d: d['id'])
ids = {p['id'] for p in P}
assert set(CLAIM) <= ids, set(CLAIM) - ids
assert not (set(CLAIM) & set(NA))
for p in P:
    if p['id'] not in CLAIM and p['id'] not in NA:
        NA[p['id']] = 'analysis not finished'
open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(p) + '\n' for p in P))
checks = []
for i in sorted(CLAIM):
    t, note = CLAIM[i]
    checks.append(dict(property=i, quick_cmd=f'./run.sh {i}', thorough_cmd=f'./run.sh {i}', technique='static analysis: ' + t, level='other', level_note=note))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[dict(property=i, reason=NA[i]) for i in sorted(NA)],
 notes='One analyser (sa/, Go, vendored x/tools) loads /repo afresh on every run; see DESIGN.md.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1); open('/verif/MANIFEST.json', 'a').write('\n')
