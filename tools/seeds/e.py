# C21: several files
TWO = '''
def bin_of(n):
    f = avb.AVBFile()
    mob = f.create.Composition()
    mob.name = u'mob %d' % n
    f.content.add_mob(mob)
    for i in range(4):
        t = f.create.Track()
        t.index = i
        t.component = f.create.Filler()
        t.component.length = 10 * n + i
        mob.tracks.append(t)
    return f
def within(name, op, fn, nth=1):
    """calls fn in the middle of op, when the nth library function called name starts"""
    seen = [0]
    def hook(frame, event, arg):
        if event == 'call' and frame.f_code.co_name == name and 'avb' in frame.f_code.co_filename:
            seen[0] += 1
            if seen[0] == nth:
                sys.setprofile(None)
                fn()
    sys.setprofile(hook)
    try:
        return op()
    finally:
        sys.setprofile(None)
'''
S('reading-global', 'C21', 'pure', 'an edit in one file while an object of another one is being read',
  'the flag that an object is being read is one for all files: an edit made in another file meanwhile is not kept',
  [('file.py', "class AVBFile(object):\n", "class AVBFile(object):\n    # set while an object is being read, its attributes are no edits then\n    reading = False\n\n"),
   ('file.py', "        self.debug_copy_refs = False\n        self.reading = False\n", "        self.debug_copy_refs = False\n"),
   ('file.py', "                self.reading = True\n", "                AVBFile.reading = True\n"),
   ('file.py', "            finally:\n                self.reading = False\n", "            finally:\n                AVBFile.reading = False\n")],
TWO + '''
a, b = reopen(bin_of(1), ext=False), reopen(bin_of(2), name='b.avb')
def edit():
    b.content.items[0].mob.name
    held.name = u'edited'
held = b.content.items[0].mob
within('read', lambda: a.content.items[0].mob, edit, 2)
del held
gc.collect()
expect(b.content.items[0].mob.name, u'edited', 'edit of one file while the other reads')
''')
S('shared-buffer', 'C21', 'pure', 'a file written, in a thread or a callback, while an object of another one is being encoded',
  'the objects of all files are encoded in one buffer',
  [('file.py', "    def write_object(self, f, obj):\n        buffer = io.BytesIO()\n", "    buffer = io.BytesIO()\n\n    def write_object(self, f, obj):\n        buffer = self.buffer\n        buffer.seek(0)\n        buffer.truncate()\n")],
TWO + '''
a, b = bin_of(1), bin_of(2)
within('write_object_ref', lambda: save(a, 'a.avb'), lambda: save(b, 'b.avb'), 3)
for f, n in ((avb.AVBFile(path('a.avb')), 1), (avb.AVBFile(path('b.avb')), 2)):
    mob = f.content.items[0].mob
    expect(mob.name, u'mob %d' % n)
    expect([t.component.length for t in mob.tracks], [10 * n + i for i in range(4)], 'components')
    f.close()
''')
S('numbers-shared', 'C21', 'pure', 'a file written, in a thread or a callback, while another one is being written',
  'the numbers of the objects written are kept in one table for all files',
  [('file.py', "        self.next_chunk_id = 0\n        self.ref_mapping = {}\n        ctx = AVBIOContext(byte_order)\n", "        self.next_chunk_id = 0\n        self.ref_mapping.clear()\n        ctx = AVBIOContext(byte_order)\n"),
   ('file.py', "class AVBFile(object):\n", "class AVBFile(object):\n    ref_mapping = {}\n\n")],
TWO + '''
a, b = bin_of(1), bin_of(2)
within('write_object', lambda: save(a, 'a.avb'), lambda: save(b, 'b.avb'), 3)
for f, n in ((avb.AVBFile(path('a.avb')), 1), (avb.AVBFile(path('b.avb')), 2)):
    mob = f.content.items[0].mob
    expect([t.component.length for t in mob.tracks], [10 * n + i for i in range(4)], 'components')
    f.close()
''')
