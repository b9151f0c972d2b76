"""C16: on an encrypted connection every byte goes through the cipher and is verified."""
from wdtsa.engine import *
from wdtsa.codec import base
from wdtsa.iorule import site

EXPLAIN = ('WdtSocket read/write/finalize paths are explored with every raw socket transfer and cipher call '
           'forked into success, partial and failure; positions in the caller\'s buffer are tracked as linear '
           'expressions so that each byte is encrypted exactly once before it is sent and decrypted exactly once '
           'before it is handed out. EncryptionUtils is explored with each OpenSSL call forked.')
RULE = ('typestate + linear positions: raw write of caller bytes only inside the encrypted prefix, returned bytes '
        'only inside the decrypted prefix; a failed cipher/tag/IV operation leaves a sticky non-OK error code and a '
        'failing result; success of the EVP wrappers requires every OpenSSL call on the path to have succeeded')
ASSUME = ['OpenSSL reports failures through its return codes', 'a peer that is allowed to be unencrypted '
          '(enableUnencryptedPeerSupport) is outside the property']

IO = 'WdtSocket::ioWithAbortCheck'
DONE = ('G', 'done')
OFF = ('G', 'off')
PLAIN = ('G', 'plain')
IN, DEC, OUT, ENC = ('G', 'in'), ('G', 'dec'), ('G', 'out'), ('G', 'enc')
BUF = ('sym', 'buf')
NB = ('sym', 'nbyte')


def atoms(v):
    s = set()
    atoms_of(v, s)
    return s


class RawIo(Rule):
    affine = True
    """contract of ioWithAbortCheck: returns the number of bytes transferred,
    taken contiguously from the start of the buffer"""
    K = 48

    def init(self):
        return ()

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        if n.get('f') in ('read', 'write') and not n.get('repo') and len(args) == 3:
            self.count('raw')
            done = st.store[DONE]
            if TOP in args[1:] or done == TOP or ladd(args[1], done, -1) != BUF:
                self.report('position', 'the transfer does not continue where the previous one stopped', st, f.loc(nid))
            elif st.truth(cmp_('<=', ladd(args[2], done), NB)) is not True:
                self.report('length', 'more bytes are transferred than asked for', st, f.loc(nid))
            bad = st.copy()
            eof = st.copy()
            v = en.fresh(st, fid, nid, 'n')
            st.assume(cmp_('>', v, ZERO))
            if args[2] != TOP:
                st.assume(cmp_('<=', v, args[2]))
            st.store[DONE] = ladd(done, v) if done != TOP else TOP
            return [(st, v), (eof, ZERO), (bad, const(-1))]
        return None

    def part(self, st):
        return st.truth(cmp_('>', st.store[DONE], ZERO))

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        done = st.store[DONE]
        if ret == TOP or done == TOP:
            self.report('result', 'the number of bytes transferred is not returned', st, fn.loc())
            return
        if st.truth(cmp_('==', ret, done)) is not True and not (
                st.truth(cmp_('<=', ret, ZERO)) is True and st.truth(cmp_('==', done, ZERO)) is True):
            self.report('result', 'the result is not the number of bytes transferred', st, fn.loc())


class Sock(Rule):
    flags = ('finish', 'tagread', 'tagsent', 'verifyTag', 'need')
    K = 10
    maxdepth = 10
    opaque = frozenset({'Protocol::decodeEncryptionSettings', 'Protocol::encodeEncryptionSettings',
                        'encryptionTypeToTagLen', 'WdtSocket::computeNextTagOffset'})

    def __init__(self, P):
        super().__init__(P)
        self.raw = 0
        self.cipher = 0
        self.ivfacts = []
        self.offs = []

    def init(self):
        return ()                        # pending failures

    def is_event(self, fn, nid, n):
        q = n.get('f', '')
        return q == IO or q.startswith(('AESEncryptor::', 'AESDecryptor::')) and n['k'] == 'call'

    def field(self, n):
        return ('F', ('P', THIS), 'WdtSocket::' + n)

    codes = ()

    def part(self, st):
        return (st.truth(cmp_('==', st.read(('F', self.field('encryptionParams_'), 'EncryptionParams::type_')), ZERO)),) + \
            tuple(self.zero(st, x) for x in self.codes) + \
            tuple(st.truth(cmp_('<=', st.read(self.field(x)), ZERO)) for x in self.ivs)

    ivs = ()

    def zero(self, st, x):
        v = st.read(self.field(x))
        t = st.truth(cmp_('==', v, ZERO))
        if t is None and v != TOP:
            t = st.truth(v if v[0] == 'bool' else ('bool', v))
            t = None if t is None else not t
        return t

    def plain(self, st):
        t = st.read(('F', self.field('encryptionParams_'), 'EncryptionParams::type_'))
        if st.truth(cmp_('==', t, ZERO)) is True:
            return True
        return False

    def pend(self, st, what):
        st.rs = tuple(sorted(set(st.rs) | {what}))
        st.note('%s FAILS' % what)

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q == IO:
            self.raw += 1
            return self.on_raw(en, st, f, fid, nid, n, args)
        if q == 'encryptionTypeToTagLen':
            v = en.rv(st, f, args[0], n['a'][0])
            if v == TOP:
                return None
            r = ('pure', 'taglen', v)
            st.assume(cmp_('>=', r, ZERO))
            return [(st, r)]
        if q == 'WdtSocket::computeNextTagOffset':
            self.offs.append((f, nid, args))
            v = en.fresh(st, fid, nid, 'off')
            st.assume(cmp_('>=', v, ZERO))
            return [(st, v)]
        if q.startswith(('AESEncryptor::', 'AESDecryptor::')) and n['k'] == 'call':
            b = base(q)
            if b in ('start', 'finish', 'verifyTag', 'encrypt', 'decrypt'):
                self.cipher += 1
                bad = st.copy()
                self.pend(bad, b)
                en.havoc_args(st, f, fid, nid, n, args)
                en.havoc_args(bad, f, fid, nid, n, args)
                if b in ('encrypt', 'decrypt'):
                    self.on_crypt(en, st, f, nid, b, args)
                if b == 'start':
                    self.ivfacts.append((q, self.ivcond(st)))
                if b in ('finish', 'verifyTag'):
                    st.store[('G', b)] = ONE
                    return [(st, ONE), (bad, ZERO)]
            if b == 'computeCurrentTag':
                bad = st.copy()
                self.pend(bad, b)
                v = en.fresh(st, fid, nid, 'tag')
                w = en.fresh(bad, fid, nid, 'tag')
                st.assume(cmp_('>', ('uns', ('pure', 'size', v)), ZERO))
                bad.assume(cmp_('==', ('uns', ('pure', 'size', w)), ZERO))
                return [(st, v), (bad, w)]
        return None

    def ivcond(self, st):
        out = set()
        for t, x in st.facts.items():
            if 'ivChangeInterval_' in repr(t) and 'umProcessed' in repr(t):
                out.add((repr(t).replace('readTag', 'Tag').replace('writeTag', 'Tag').replace('decryptor', 'cryptor')
                         .replace('encryptor', 'cryptor').replace('AESDec', 'AES').replace('AESEnc', 'AES'), x[0], x[1]))
        return frozenset(out)


class Io(Sock):
    """one layer of the socket; the layers below are replaced by their contracts,
    which are checked by exploring those layers the same way"""
    affine = True
    K = 48
    below = ()

    def part(self, st):
        i = ('fld', ('cont', THIS), 'WdtSocket::' + self.errf)
        return super().part(st) + (st.truth(cmp_('==', i, ZERO)),) if self.top else ()

    def is_event(self, fn, nid, n):
        return n.get('f') in self.below or super().is_event(fn, nid, n)

    def err(self, st):
        return st.read(self.field(self.errf))

    def fail(self, en, st, fid, nid):
        """a failed lower layer leaves an error code"""
        e = en.fresh(st, fid, nid, 'err')
        st.assume(cmp_('!=', e, ZERO))
        st.write(self.field(self.errf), e)

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q in self.below:
            self.raw += 1
            a = [en.rv(st, f, x, e) for x, e in zip(args, n['a'])]
            return self.on_io(en, st, f, fid, nid, n, q, a)
        if q == IO:
            self.raw += 1
            a = [en.rv(st, f, x, e) for x, e in zip(args, n['a'])]
            return self.on_io(en, st, f, fid, nid, n, q, a[1:])
        if q == 'WdtSocket::computeNextTagOffset':
            self.offs.append((f, nid, args))
            v = en.fresh(st, fid, nid, 'off')
            st.assume(cmp_('>=', v, ZERO))
            st.store[OFF] = v
            return [(st, v)]
        return super().on_call(en, st, f, fid, nid, n, obj, args)


class Writer(Io):
    name = 'write'
    errf = 'writeErrorCode_'
    codes = ('writeErrorCode_', 'encryptionSettingsWritten_')
    ivs = ('writeTagInterval_',)

    def on_crypt(self, en, st, f, nid, b, args):
        if b != 'encrypt':
            return
        enc = st.store[ENC]
        a, ln, o = args
        if enc == TOP or TOP in args or ladd(a, enc, -1) != BUF or a != o:
            self.report('encrypt position', 'bytes are skipped or encrypted twice', st, f.loc(nid))
            st.store[ENC] = TOP
        else:
            st.store[ENC] = ladd(enc, ln)

    def on_io(self, en, st, f, fid, nid, n, q, args):
        p, ln = args[:2]
        mine = p == TOP or BUF in atoms(p)
        b = base(q)
        low = b in ('writeWithAbortCheck', 'ioWithAbortCheck')
        crypts = 'ncrypt' in b
        if self.top and not mine and b == 'writeInternal' and self.zero(st, 'writeErrorCode_') is not True:
            self.report('after error', 'data is written although an earlier write on the connection failed', st, f.loc(nid))
        if mine:
            self.count('data')
            out, enc = st.store[OUT], st.store[ENC]
            if TOP in (p, ln, out) or ladd(p, out, -1) != BUF:
                self.report('write position', 'bytes sent do not follow the bytes sent before', st, f.loc(nid))
            if self.top and self.zero(st, 'writeErrorCode_') is not True:
                self.report('after error', 'data is written although an earlier write on the connection failed', st, f.loc(nid))
            if not crypts and not low and not self.lowest and not self.plain(st):
                if TOP in (ln, out, enc) or st.truth(cmp_('<=', ladd(out, ln), enc)) is not True:
                    self.report('plaintext', 'bytes can be sent on an encrypted connection without having been encrypted', st, f.loc(nid))
            if self.top and not self.plain(st) and self.zero(st, 'encryptionSettingsWritten_') is not False:
                self.report('settings', 'encrypted bytes can be sent before the encryption settings', st, f.loc(nid))
            off = st.store.get(OFF)
            if off is not None and st.store.get(('G', 'tagsent')) != ONE and (
                    TOP in (ln, out) or st.truth(cmp_('<=', ladd(out, ln), off)) is not True):
                self.report('tag skipped', 'bytes beyond a tag position are sent before the tag', st, f.loc(nid))
        outs = []
        if ln == TOP:
            ln = en.fresh(st, fid, nid, 'all')
        bad = st.copy()
        if not low:
            self.fail(en, bad, fid, nid)
        if not mine:
            self.pend(bad, 'write')
        else:
            bad.store[('G', 'lost')] = ONE
        if low:
            part = st.copy()
            s = en.fresh(part, fid, nid, 'part')
            part.assume(cmp_('>', s, ZERO))
            if part.assume(cmp_('<', s, ln)):
                if mine:
                    part.store[OUT] = ladd(part.store[OUT], s) if part.store[OUT] != TOP else TOP
                else:
                    self.pend(part, 'write')
                outs.append((part, s))
        if mine:
            for g in (OUT,) + ((ENC,) if crypts else ()):
                st.store[g] = ladd(st.store[g], ln) if st.store[g] != TOP else TOP
            if b.endswith('WithTag'):
                t = st.read(self.field('totalWritten_'))
                st.write(self.field('totalWritten_'), ladd(t, ln) if t != TOP else TOP)
        elif self.istag(st, p):
            off = st.store.get(OFF)
            if off is not None and st.truth(cmp_('==', st.store[OUT], off)) is not True:
                self.report('tag position', 'the tag is sent at a position the receiver does not expect it', st, f.loc(nid))
            st.store[('G', 'tagsent')] = ONE
        return outs + [(st, ln), (bad, const(-1))]

    def istag(self, st, p):
        return "'tag'" in repr(p)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if ret == TOP:
            self.report('result', 'the result of %s is not understood' % fn.qn, st, fn.loc())
            return
        pend = st.rs
        full = st.truth(cmp_('==', ret, NB))
        if full is not True and self.zero(st, 'writeErrorCode_') is not False:
            self.report('sticky', '%s leaves no error on the connection although not everything was written' % fn.qn, st, fn.loc())
        if pend and self.zero(st, 'writeErrorCode_') is not False:
            self.report('sticky ' + pend[0], '%s leaves no error on the connection although %s() failed' % (fn.qn, pend[0]), st, fn.loc())
        if full is False or st.truth(cmp_('<', ret, ZERO)) is True:
            return
        if pend:
            self.report('hidden ' + pend[0], '%s can report success although %s() failed' % (fn.qn, pend[0]), st, fn.loc())
        if st.store[OUT] == TOP or st.truth(cmp_('==', st.store[OUT], NB)) is not True:
            self.report('short', '%s can report success without sending every byte' % fn.qn, st, fn.loc())
        iv = st.read(self.field('writeTagInterval_'))
        if (self.top or 'WithTag' in fn.qn) and not self.plain(st) and st.truth(cmp_('<=', iv, ZERO)) is not True:
            d = ladd(st.read(self.field('totalWritten_')), ('fld', ('cont', THIS), 'WdtSocket::totalWritten_'), -1)
            if st.truth(cmp_('==', d, NB)) is not True:
                self.report('total', 'the count of bytes encrypted so far is not advanced by what was sent', st, fn.loc())


class Reader(Io):
    name = 'read'
    errf = 'readErrorCode_'
    codes = ('readErrorCode_', 'encryptionSettingsRead_')
    ivs = ('readTagInterval_',)

    def on_crypt(self, en, st, f, nid, b, args):
        if b != 'decrypt':
            return
        dec, inn = st.store[DEC], st.store[IN]
        a, ln, o = args
        if TOP in (dec, inn) or TOP in args or ladd(a, dec, -1) != BUF or a != o or \
                st.truth(cmp_('<=', ladd(dec, ln), inn)) is not True:
            self.report('decrypt position', 'bytes are skipped, decrypted twice, or decrypted before they arrived', st, f.loc(nid))
            st.store[DEC] = TOP
        else:
            st.store[DEC] = ladd(dec, ln)

    def on_write(self, en, st, fn, nid, n, loc, v):
        if self.top and loc[0] == 'X' and BUF in atoms(loc):
            st.store[IN] = ladd(st.store[IN], ONE) if st.store[IN] != TOP else TOP

    def on_io(self, en, st, f, fid, nid, n, q, args):
        p, ln = args[:2]
        mine = p == TOP or BUF in atoms(p)
        b = base(q)
        low = b in ('readWithAbortCheck', 'ioWithAbortCheck')
        crypts = 'ecrypt' in b
        if mine:
            self.count('data')
            inn = st.store[IN]
            if self.top:
                e = self.err(st)
                i = ('fld', ('cont', THIS), 'WdtSocket::readErrorCode_')
                if not any(st.truth(cmp_('==', i, x)) is True for x in (ZERO, const(self.timeout))):
                    self.report('retry', 'data is read again after a failure that a retry cannot repair', st, f.loc(nid))
                if not (st.truth(cmp_('==', e, ZERO)) is True or self.retry(st) and st.truth(cmp_('==', e, const(self.timeout))) is True):
                    self.report('after error', 'data is read although an earlier read on the connection failed', st, f.loc(nid))
                if not self.plain(st) and self.zero(st, 'encryptionSettingsRead_') is not False:
                    self.report('settings', 'encrypted bytes can be read before the encryption settings', st, f.loc(nid))
                if not self.plain(st) and not crypts:
                    self.report('raw', 'bytes are read past the cipher on an encrypted connection', st, f.loc(nid))
            if TOP in (p, ln, inn) or ladd(p, inn, -1) != BUF:
                self.report('read position', 'bytes received do not follow the bytes received before', st, f.loc(nid))
            elif st.truth(cmp_('<=', ladd(inn, ln), NB)) is not True:
                self.report('overflow', 'more bytes are read than the caller provided room for', st, f.loc(nid))
            off = st.store.get(OFF)
            if off is not None and st.store.get(('G', 'verifyTag')) != ONE and (
                    TOP in (ln, inn) or st.truth(cmp_('<=', ladd(inn, ln), off)) is not True):
                self.report('tag skipped', 'bytes beyond a tag position are read before the tag is verified', st, f.loc(nid))
        elif self.istag(st, fid):
            off = st.store.get(OFF)
            if off is not None and st.truth(cmp_('==', st.store[IN], off)) is not True:
                self.report('tag position', 'the tag is read at a position where the sender did not put it', st, f.loc(nid))
        if ln == TOP:
            ln = en.fresh(st, fid, nid, 'all')
        bad, part = st.copy(), st.copy()
        s = en.fresh(part, fid, nid, 'part')
        part.assume(cmp_('>', s, ZERO))
        more = part.assume(cmp_('<', s, ln))
        if not low:
            self.fail(en, bad, fid, nid)
        if not mine and ln != ONE:
            self.pend(bad, 'read')
            self.pend(part, 'read')
        v = en.fresh(bad, fid, nid, 'bad')
        bad.assume(cmp_('<=', v, ZERO))
        outs = [(bad, v)]
        for x, k in ((st, ln), (part, s)):
            if x is part and not more:
                continue
            if mine:
                for g in (IN,) + ((DEC,) if crypts else ()):
                    x.store[g] = ladd(x.store[g], k) if x.store[g] != TOP else TOP
                if b.endswith('WithTag'):
                    t = x.read(self.field('totalRead_'))
                    x.write(self.field('totalRead_'), ladd(t, k) if t != TOP else TOP)
            if not low:
                x.write(self.field('readErrorCode_'), ZERO)
            outs.append((x, k))
        return outs

    def retry(self, st):
        return st.truth(cmp_('==', st.store[IN], ZERO)) is True

    def istag(self, st, fid):
        return False

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if ret == TOP:
            self.report('result', 'the result of %s is not understood' % fn.qn, st, fn.loc())
            return
        err = self.err(st)
        pend = st.rs
        if pend and (st.truth(cmp_('==', err, ZERO)) is not False or st.truth(cmp_('==', err, const(self.timeout))) is not False):
            self.report('sticky ' + pend[0], '%s leaves no lasting error on the connection although %s() failed' % (fn.qn, pend[0]), st, fn.loc())
        if st.truth(cmp_('<=', ret, ZERO)) is True:
            if self.zero(st, 'readErrorCode_') is not False:
                self.report('sticky', '%s fails without leaving an error on the connection' % fn.qn, st, fn.loc())
            return
        lim = st.store[IN if self.lowest or self.plain(st) else DEC]
        if lim == TOP or st.truth(cmp_('<=', ret, lim)) is not True:
            self.report('undecrypted', '%s can hand out bytes that were not read and decrypted' % fn.qn, st, fn.loc())
        iv = st.read(self.field('readTagInterval_'))
        if (self.top or 'WithTag' in fn.qn) and not self.plain(st) and st.truth(cmp_('<=', iv, ZERO)) is not True:
            d = ladd(st.read(self.field('totalRead_')), ('fld', ('cont', THIS), 'WdtSocket::totalRead_'), -1)
            if lim == TOP or st.truth(cmp_('==', d, lim)) is not True:
                self.report('total', 'the count of bytes decrypted so far is not advanced by what was read', st, fn.loc())


LAYERS = (
    (Writer, ('writeInternal', 'encryptAndWrite', 'encryptAndWriteWithTag', 'write')),
    (Reader, ('readInternal', 'readAndDecrypt', 'readAndDecryptWithTag', 'readWithTimeout')),
)


class FinishReads(Sock):
    def on_raw(self, en, st, f, fid, nid, n, args):
        bad = st.copy()
        self.pend(bad, 'read')
        v = en.fresh(bad, fid, nid, 'short')
        ln = args[2] if args[2] != TOP else en.fresh(st, fid, nid, 'all')
        bad.assume(cmp_('<', v, ln))
        st.store[('G', 'tagread')] = ONE
        return [(st, ln), (bad, v)]

    def on_crypt(self, en, st, f, nid, b, args):
        pass

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if ret == TOP or st.truth(cmp_('==', ret, ZERO)) is False:
            return
        for p in st.rs:
            self.report('hidden ' + p, '%s reports success although %s() failed' % (fn.qn, p), st, fn.loc())
        if st.store.get(('G', 'finish')) != ONE:
            self.report('unverified', '%s reports success without checking the final tag' % fn.qn, st, fn.loc())
        t = st.read(('F', self.field('encryptionParams_'), 'EncryptionParams::type_'))
        if st.store.get(('G', 'tagread')) != ONE and st.truth(cmp_('==', ('pure', 'taglen', t), ZERO)) is not True:
            self.report('unread tag', '%s reports success without reading the final tag' % fn.qn, st, fn.loc())


class FinishWrites(Sock):
    follow = frozenset()

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q == 'AESEncryptor::finish' and n['k'] == 'call':
            bad, none = st.copy(), st.copy()
            self.pend(bad, 'finish')
            for s, sz in ((st, '>'), (none, '==')):
                w = en.fresh(s, fid, nid, 'tag')
                if args and args[0] != TOP:
                    s.write(to_loc(args[0]), w)
                s.assume(cmp_(sz, ('uns', ('pure', 'size', w)), ZERO))
            en.havoc_args(bad, f, fid, nid, n, args)
            st.store[('G', 'need')] = ONE
            st.store[('G', 'finish')] = none.store[('G', 'finish')] = ONE
            return [(st, ONE), (none, ONE), (bad, ZERO)]
        if q in ('shutdown',) and not n.get('repo'):
            st2 = st.copy()
            return [(st, ZERO), (st2, const(-1))]
        return super().on_call(en, st, f, fid, nid, n, obj, args)

    def on_raw(self, en, st, f, fid, nid, n, args):
        bad = st.copy()
        self.pend(bad, 'write')
        v = en.fresh(bad, fid, nid, 'short')
        ln = args[2] if args[2] != TOP else en.fresh(st, fid, nid, 'all')
        bad.assume(cmp_('<', v, ln))
        st.store.pop(('G', 'need'), None)
        bad.store.pop(('G', 'need'), None)
        return [(st, ln), (bad, v)]

    def on_crypt(self, en, st, f, nid, b, args):
        pass

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if ret == TOP or st.truth(cmp_('==', ret, ZERO)) is False:
            return
        for p in st.rs:
            self.report('hidden ' + p, '%s reports success although %s() failed' % (fn.qn, p), st, fn.loc())
        if st.store.get(('G', 'finish')) != ONE:
            self.report('unfinished', '%s reports success without finishing the cipher' % fn.qn, st, fn.loc())
        if st.store.get(('G', 'need')):
            self.report('tag not sent', '%s reports success without sending the final tag' % fn.qn, st, fn.loc())


class Close(Sock):
    """closing forgets every per-connection value"""
    FIELDS = ('readErrorCode_', 'writeErrorCode_', 'encryptionSettingsRead_', 'encryptionSettingsWritten_',
              'writesFinalized_', 'readsFinalized_', 'totalRead_', 'totalWritten_')
    K = 48

    def part(self, st):
        return st.truth(cmp_('<', ('fld', ('cont', THIS), 'WdtSocket::fd_'), ZERO))

    def on_raw(self, en, st, f, fid, nid, n, args):
        return None

    def on_crypt(self, en, st, f, nid, b, args):
        pass

    def on_write(self, en, st, fn, nid, n, loc, v):
        if loc[0] == 'F' and loc[2] in ('WdtSocket::encryptor_', 'WdtSocket::decryptor_'):
            st.store[('G', 'new', loc[2])] = ONE

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if st.truth(cmp_('<', ('fld', ('cont', THIS), 'WdtSocket::fd_'), ZERO)) is True:
            return
        for x in self.FIELDS:
            v = st.read(self.field(x))
            if v == TOP or st.truth(cmp_('==', v, ZERO)) is not True:
                self.report('kept ' + x, 'closing the connection keeps %s of the old connection' % x, st, fn.loc())
        for x in ('encryptor_', 'decryptor_'):
            if st.store.get(('G', 'new', 'WdtSocket::' + x)) != ONE:
                self.report('kept ' + x, 'closing the connection keeps the old %s' % x, st, fn.loc())


class Evp(Rule):
    """the OpenSSL wrappers"""
    K = 10
    opaque = frozenset({'encryptionTypeToTagLen', 'AESBase::getCipher'})
    OKS = ('EVP_EncryptInit_ex', 'EVP_DecryptInit_ex', 'EVP_EncryptUpdate', 'EVP_DecryptUpdate', 'EVP_EncryptFinal',
           'EVP_DecryptFinal', 'EVP_EncryptFinal_ex', 'EVP_DecryptFinal_ex', 'EVP_CIPHER_CTX_copy', 'RAND_bytes',
           'EVP_EncryptInit_ex2', 'EVP_DecryptInit_ex2', 'EVP_CipherUpdate')
    CTRL = {0x9: 'set iv length', 0x10: 'get tag', 0x11: 'set tag'}

    def init(self):
        return ((), ())                  # failed, done

    def is_event(self, fn, nid, n):
        return n.get('f') in self.OKS or n.get('f') == 'EVP_CIPHER_CTX_ctrl'

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q == 'encryptionTypeToTagLen':
            v = en.rv(st, f, args[0], n['a'][0])
            r = ('pure', 'taglen', v) if v != TOP else en.fresh(st, fid, nid, 'tl')
            st.assume(cmp_('>=', r, ZERO))
            self.tl.add(r)
            return [(st, r)]
        if q == 'AESBase::getCipher':
            bad = st.copy()
            bad.rs = (tuple(sorted(set(bad.rs[0]) | {'getCipher'})), bad.rs[1])
            v = en.fresh(st, fid, nid, 'cipher')
            st.assume(cmp_('>', v, ZERO))
            return [(st, v), (bad, ZERO)]
        if not self.is_event(f, nid, n) or n.get('repo'):
            return None
        name = q
        if q == 'EVP_CIPHER_CTX_ctrl':
            name = self.CTRL.get(args[1][1] if is_const(args[1]) else None, 'ctrl')
        self.count('evp')
        en.havoc_args(st, f, fid, nid, n, args)
        bad = st.copy()
        bad.rs = (tuple(sorted(set(bad.rs[0]) | {name})), bad.rs[1])
        bad.note('%s %s FAILS' % (f.loc(nid), name))
        full = name
        if name.endswith('Init_ex') and len(args) == 5 and (args[3] == ZERO or args[4] == ZERO):
            full = 'preinit'
        if name == 'EVP_DecryptFinal' and 'set tag' not in st.rs[1]:
            full = 'untagged final'
        if name == 'RAND_bytes':
            full = name
        st.rs = (st.rs[0], tuple(sorted(set(st.rs[1]) | {full})))
        st.store[('G', 'args', name)] = ('il',) + tuple(args)
        v = en.fresh(bad, fid, nid, 'fail')
        bad.assume(cmp_('<=', v, ZERO))
        return [(st, ONE), (bad, v)]

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if ret == TOP:
            self.report('result', 'result of %s not understood' % fn.qn, st, fn.loc())
            return
        if st.truth(en.boolean(st, ret)) is False:
            return
        failed, did = st.rs
        for x in failed:
            self.report('hidden ' + x, '%s reports success although %s failed' % (fn.qn, x), st, fn.loc())
        for need in self.need:
            if not any(x in did for x in need):
                if self.idle(st):
                    continue
                self.report('missing ' + need[0], '%s reports success without %s' % (fn.qn, need[0]), st, fn.loc())
        if self.tagged and not self.idle(st) and self.tagged not in did:
            if not any(st.truth(cmp_('==', x, ZERO)) is True for t in self.tl for x in (t, ('uns', t))):
                self.report('missing ' + self.tagged, '%s reports success without "%s" for an authenticated cipher' % (fn.qn, self.tagged), st, fn.loc())
        if self.after:
            self.after(self, en, st, fn)

    def idle(self, st):
        s = ('fld', ('cont', THIS), 'AESBase::started_')
        return self.mayidle and (st.truth(('bool', s)) is False or st.truth(s) is False)


def crypt_args(r, en, st, fn):
    """out buffer, in buffer and length of the Update call are the caller's"""
    for name in ('EVP_EncryptUpdate', 'EVP_DecryptUpdate'):
        a = st.store.get(('G', 'args', name))
        if a is None:
            continue
        a = a[1:]
        if len(a) != 5 or a[1] != ('sym', 'p2') or a[3] != ('sym', 'p0') or a[4] != ('sym', 'p1'):
            r.report('update args', '%s does not process the caller\'s bytes into the caller\'s buffer' % fn.qn, st, fn.loc())


def iv_args(r, en, st, fn):
    a = st.store.get(('G', 'args', 'EVP_EncryptInit_ex'))
    b = st.store.get(('G', 'args', 'RAND_bytes'))
    if a is None or b is None:
        return
    a, b = a[1:], b[1:]
    if len(a) != 5 or b[0] == TOP or a[4] != b[0]:
        r.report('iv', 'the initialization vector used is not the one generated', st, fn.loc())
    if not is_const(b[1]) or b[1][1] != r.block:
        r.report('iv length', 'not all of the initialization vector is random', st, fn.loc())


def key_args(r, en, st, fn):
    ks = [st.store[x][4] for x in (('G', 'args', 'EVP_EncryptInit_ex'), ('G', 'args', 'EVP_DecryptInit_ex'))
          if x in st.store and len(st.store[x]) == 6 and st.store[x][4] != ZERO]
    if not ks or not all('data_' in repr(k) for k in ks):
        r.report('key', 'the cipher is not keyed with the connection secret', st, fn.loc())


def iv_key(r, en, st, fn):
    iv_args(r, en, st, fn)
    key_args(r, en, st, fn)


def run(P, c):
    tmo = P.enum('ErrorCode')['WDT_TIMEOUT']
    # raw transfers
    k = [f for f in P.F.values() if f.qn == IO]
    c.need(k, IO + ' not found')
    for f in k:
        r = RawIo(P)
        kind = 'read' if '(int, void' in f.key else 'write'
        fn = [n['fk'] for g in P.F.values() for n in g.nodes.values() if n['k'] == 'fn' and n.get('f') == kind and n.get('fk')]
        c.need(fn, 'socket %s not referenced' % kind)

        def setup(st, g, fid):
            ps = g.params
            st.store[('L', fid, ps[0]['d'])] = ('fn', fn[0])
            st.store[('L', fid, ps[1]['d'])] = BUF
            st.store[('L', fid, ps[2]['d'])] = NB
            st.assume(cmp_('>', NB, ZERO))
            st.store[DONE] = ZERO
        c.explore(r, f.key, setup=setup)
        c.need(r.stats.get('raw'), 'raw socket %s not found' % kind)
        c.oblige('raw socket %s returns what it transferred' % kind, not r.viol)
        c.absorb(r, 'raw %s ' % kind)

    def setup2(st, g, fid):
        ps = g.params
        st.store[('L', fid, ps[0]['d'])] = BUF
        st.store[('L', fid, ps[1]['d'])] = NB
        st.assume(cmp_('>', NB, ZERO))
        for x in (IN, DEC, OUT, ENC):
            st.store[x] = ZERO
    iv = {}
    offs = []
    for cls, names in LAYERS:
        here = [x for x in names if P.fns('WdtSocket::' + x)]
        c.need(here and here[-1] == names[-1], 'WdtSocket::%s not found' % names[-1])
        abc = 'WdtSocket::%sWithAbortCheck' % cls.name
        ciphers = data = 0
        for i, x in enumerate(here):
            r = cls(P)
            r.timeout = tmo
            r.below = frozenset(['WdtSocket::' + y for y in here[:i]] + [abc])
            r.top = x == names[-1]
            if r.top:
                r.K = 6
            r.lowest = x == names[0]
            def setup4(st, g, fid):
                setup2(st, g, fid)
                if r.top:
                    st.assume(cmp_('==', ('bool', st.read(r.field('supportUnencryptedPeer_'))), ZERO))
                if 'WithTag' in x:
                    # readEncryptionSettingsOnce refuses a tag interval without tags
                    t = st.read(('F', r.field('encryptionParams_'), 'EncryptionParams::type_'))
                    st.assume(cmp_('>', ('pure', 'taglen', t), ZERO))
            flag = r.field(r.codes[1])
            for done in (0, 1) if r.top else (None,):
                def setup5(st, g, fid):
                    setup4(st, g, fid)
                    if done is not None:
                        st.write(flag, const(done))
                c.explore(r, P.fn('WdtSocket::' + x).key, setup=setup5)
            c.need(r.stats.get('exits'), 'WdtSocket::%s not understood' % x)
            ciphers += r.cipher
            data += r.stats.get('data', 0)
            c.oblige('WdtSocket::%s passes every byte through the cipher, in order, and never hides a failure' % x, not r.viol)
            c.absorb(r, x + ' ')
            for q, fs in r.ivfacts:
                iv.setdefault(cls.name, set()).add(fs)
            offs += r.offs
        c.need(ciphers and data, 'WdtSocket %s path not understood' % cls.name)
    c.sample('iv change conditions: %s' % {k: len(v) for k, v in iv.items()})
    ivs = [set(x for x in v if x) for v in iv.values()]
    c.need(len(ivs) == 2, 'iv changes not found')
    c.check(ivs[0] == ivs[1], 'iv change condition', 'sender and receiver change the encryption iv under different conditions',
            'util/WdtSocket.cpp')
    for f, nid, a in offs:
        want = 'Written_' if any('AESEncryptor' in n.get('f', '') or 'ncryptAndWrite' in n.get('f', '') for _, n in f.calls()) else 'Read_'
        s = [repr(x) for x in a]
        w = {'Written_': ('totalWritten_', 'writeTagInterval_'), 'Read_': ('totalRead_', 'readTagInterval_')}[want]
        c.check(w[1] in s[1] if TOP not in a else False, 'tag offset ' + want,
                'the tag position is not computed from the connection\'s own counters', f.loc(nid))
    for cls, qn in ((FinishReads, 'WdtSocket::expectEndOfStream'), (FinishWrites, 'WdtSocket::shutdownWrites'), (Close, 'WdtSocket::closeConnectionInternal')):
        r = cls(P)
        c.explore(r, P.fn(qn).key)
        c.need(r.stats.get('exits'), qn + ' not understood')
        c.oblige('%s' % qn, not r.viol)
        c.absorb(r, qn + ' ')
    blk = [g['cv'] for k, g in P.globals.items() if k.endswith('kAESBlockSize')]
    c.need(blk, 'kAESBlockSize not found')
    for qn, need, tagged, idle, after in (
            ('AESEncryptor::start', [('RAND_bytes',), ('EVP_EncryptInit_ex',)], None, False, iv_key),
            ('AESDecryptor::start', [('EVP_DecryptInit_ex',)], None, False, key_args),
            ('AESEncryptor::encrypt', [('EVP_EncryptUpdate',)], None, False, crypt_args),
            ('AESDecryptor::decrypt', [('EVP_DecryptUpdate',)], None, False, crypt_args),
            ('AESEncryptor::finish', [('EVP_EncryptFinal', 'EVP_EncryptFinal_ex')], 'get tag', True, None),
            ('AESDecryptor::finish', [('EVP_DecryptFinal', 'EVP_DecryptFinal_ex', 'untagged final')], 'set tag', True, None),
            ('AESDecryptor::verifyTag', [('EVP_DecryptFinal', 'EVP_DecryptFinal_ex', 'untagged final'), ('EVP_CIPHER_CTX_copy',)], 'set tag', False, None)):
        r = Evp(P)
        r.need, r.tagged, r.mayidle, r.after = need, tagged, idle, after
        r.tl = set()
        r.block = blk[0]
        f = P.fn(qn)

        def setup3(st, g, fid):
            if r.after is crypt_args:
                for i, p in enumerate(g.params):
                    st.store[('L', fid, p['d'])] = ('sym', 'p%d' % i)
        c.explore(r, f.key, setup=setup3)
        c.need(r.stats.get('exits'), qn + ' not understood')
        c.oblige('%s reports OpenSSL failures' % qn, not r.viol)
        c.absorb(r, qn + ' ')
