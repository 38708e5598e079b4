// The Java side of C31: every decision is drawn from the native engine's recorded choices.
import com.wickr.crypto.*;
import java.lang.reflect.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.*;

public class J {
    static { System.loadLibrary("WickrCrypto"); }
    static native long draw(long max);
    static native long edge(long max);
    static native byte[] blob(int max);
    static native byte[] tampered(byte[] b);
    static native void label(String s);
    static native void note(String s);
    static native void nontrivial();
    static native String scratch();
    static class Fail extends RuntimeException { Fail(String m) { super(m); } }
    static void check(boolean c, String m) { if (!c) throw new Fail(m); }
    static boolean chance(int num, int den) { return draw(den - 1) >= den - num; }
    static byte[] atMost(int n, byte[] b) { return b.length > n ? part(b, 0, n) : b; }
    static byte[] blob1(int max) { byte[] b = blob(max); return b.length > 0 ? b : new byte[] {(byte) draw(255)}; }
    static byte[] rnd(int n) { byte[] b = new byte[n]; long s = draw(0xffffff); Random r = new Random(s); r.nextBytes(b); return b; }
    static BigInteger u64(long v) { return new BigInteger(Long.toUnsignedString(v)); }
    static String hex(byte[] b) { if (b == null) return "null"; StringBuilder s = new StringBuilder(); for (byte x : b) s.append(Character.forDigit((x >> 4) & 15, 16)).append(Character.forDigit(x & 15, 16)); return s.toString(); }
    static void same(String what, byte[] a, byte[] b) { check(Arrays.equals(a, b), what + ": " + hex(a) + " and " + hex(b)); }
    static void gc() { System.gc(); System.runFinalization(); }

    // ---------------------------------------------------------------- what an object looks like from Java
    static final Class<?>[] CLASSES = {Cipher.class, CipherKey.class, CipherResult.class, Context.class, ContextDecodeResult.class, ContextGenResult.class, ContextParseResult.class, CryptoEngine.class, DeviceInfo.class, Digest.class, ECCurve.class, ECDHCipherContext.class, ECDSAResult.class, ECKey.class, EncoderResult.class, EphemeralInfo.class, EphemeralKeypair.class, Fingerprint.class, Identity.class, IdentityChain.class, KDFAlgo.class, KDFMeta.class, KDFResult.class, KeyExchange.class, KeyExchangeSet.class, Node.class, Packet.class, PacketMeta.class, ParseResult.class, Payload.class, RootKeys.class, StorageKeys.class, WickrArray.class};
    static final Set<Class<?>> PROXIES = new HashSet<>(Arrays.asList(CLASSES));
    static final Map<Class<?>, List<Method>> GETTERS = new HashMap<>();
    static final List<Method> CALLS = new ArrayList<>();
    static {
        for (Class<?> c : CLASSES) {
            List<Method> g = new ArrayList<>();
            for (Method m : c.getDeclaredMethods()) {
                if (!Modifier.isPublic(m.getModifiers()) || m.isSynthetic()) continue;
                String n = m.getName();
                if (n.equals("delete") || n.equals("getCPtr") || n.equals("swigRelease") || n.equals("finalize")) continue;
                boolean getter = !Modifier.isStatic(m.getModifiers()) && m.getParameterCount() == 0 && n.startsWith("get");
                if (getter) { if (!n.startsWith("getStatus")) g.add(m); } else CALLS.add(m); // (the cached verdicts may change)
            }
            g.sort(Comparator.comparing(Method::getName)); GETTERS.put(c, g);
        }
        for (Method m : WickrCrypto.class.getDeclaredMethods()) if (Modifier.isPublic(m.getModifiers()) && !m.isSynthetic()) CALLS.add(m);
        CALLS.sort(Comparator.comparing(Method::toString));
    }
    static Object call(Method m, Object self, Object... a) {
        try { return m.invoke(self, a); }
        catch (InvocationTargetException e) { Throwable t = e.getCause(); if (t instanceof RuntimeException) throw (RuntimeException) t; if (t instanceof Error) throw (Error) t; throw new RuntimeException(t); }
        catch (IllegalAccessException e) { throw new RuntimeException(e); }
    }
    static String snap(Object o) { StringBuilder s = new StringBuilder(); snap(o, s); return s.toString(); }
    static void snap(Object o, StringBuilder s) {
        if (o == null) { s.append("null"); return; }
        if (o instanceof byte[]) { s.append(hex((byte[]) o)); return; }
        if (!PROXIES.contains(o.getClass())) { s.append(o.toString()); return; }
        if (o instanceof CryptoEngine) { byte[] r = WickrCrypto.wickrCryptoEngineKdfCipher((CryptoEngine) o, KDFAlgo.bcrypt15(), Cipher.aes256Gcm(), new byte[] {1}, new byte[] {2}); s.append("engine " + (r == null ? "null" : r.length)); return; }
        s.append(o.getClass().getSimpleName()).append('{');
        for (Method m : GETTERS.get(o.getClass())) { s.append(m.getName().substring(3)).append('='); snap(call(m, o), s); s.append(' '); }
        if (o instanceof WickrArray) { WickrArray a = (WickrArray) o; for (long i = 0; i < a.getItemCount(); i++) { Node n = a.getNode(i); s.append(i).append('='); snap(n, s); if (n != null) n.delete(); s.append(' '); } }
        s.append('}');
    }
    static String diff(String a, String b) { int i = 0; while (i < a.length() && i < b.length() && a.charAt(i) == b.charAt(i)) i++; int k = Math.max(0, i - 40); return "..." + a.substring(k, Math.min(a.length(), i + 40)) + "... and ..." + b.substring(k, Math.min(b.length(), i + 40)) + "..."; }

    // ---------------------------------------------------------------- the pool of live objects
    static class Handle { Object o; String was; Handle root; String name; Handle(Object o, Handle root, String name) { this.o = o; this.root = root == null ? this : root; this.name = name; was = snap(o); } }
    static List<Handle> pool; static List<byte[]> bytes;
    static Handle add(Object o, Handle root, String name) { Handle h = new Handle(o, root, name); if (pool != null) pool.add(h); return h; }
    static void recheck(String after) { for (Handle h : pool) { String now = snap(h.o); if (!now.equals(h.was)) throw new Fail("after " + after + " the " + h.o.getClass().getSimpleName() + " from " + h.name + " has changed: " + diff(h.was, now)); } }

    // ---------------------------------------------------------------- generators
    static byte[] someBytes(int max) { if (bytes != null && !bytes.isEmpty() && chance(1, 3)) return bytes.get((int) draw(bytes.size() - 1)); return blob(max); }
    static Cipher cipher() { return draw(3) == 0 ? Cipher.aes256Ctr() : Cipher.aes256Gcm(); }
    static Digest digest() { switch ((int) draw(2)) { case 0: return Digest.sha512(); case 1: return Digest.sha384(); default: return Digest.sha256(); } }
    static KDFAlgo passphraseAlgo() { switch ((int) draw(4)) { case 0: return KDFAlgo.scrypt17(); case 1: return KDFAlgo.scrypt18(); case 2: return KDFAlgo.scrypt19(); case 3: return KDFAlgo.scrypt20(); default: return KDFAlgo.bcrypt15(); } }
    static KDFAlgo hkdfAlgo() { switch ((int) draw(3)) { case 0: return KDFAlgo.hkdfSha256(); case 1: return KDFAlgo.hkdfSha384(); case 2: return KDFAlgo.hkdfSha512(); default: return KDFAlgo.hkdfSha512Expand(); } }
    static final Map<Class<?>, Integer> DEPTH = new HashMap<>();
    static Object make(Class<?> t) { Object o = make0(t); return o; }
    static <T> T some(Class<T> t) { // one of the pool, or a new one
        if (pool != null && chance(2, 3)) { List<Handle> l = new ArrayList<>(); for (Handle h : pool) if (h.o.getClass() == t) l.add(h); if (!l.isEmpty()) return t.cast(l.get((int) draw(l.size() - 1)).o); }
        return t.cast(make(t));
    }
    static KDFMeta hkdfMeta() { return KDFMeta.fromComponents(hkdfAlgo(), blob1(40), blob1(40)); }
    static Identity rootIdentity() { return Identity.fromValues(IdentityType.IDENTITY_TYPE_ROOT, rnd(32), CryptoEngine.randEcKey(ECCurve.p521()), null); }
    static Object make0(Class<?> t) {
        if (t == Cipher.class) return cipher();
        if (t == Digest.class) return digest();
        if (t == ECCurve.class) return ECCurve.p521();
        if (t == KDFAlgo.class) return chance(1, 3) ? hkdfAlgo() : passphraseAlgo();
        if (t == CryptoEngine.class) return WickrCrypto.wickrCryptoEngineGetDefault();
        if (t == CipherKey.class) return CryptoEngine.randomKey(cipher());
        if (t == CipherResult.class) return CryptoEngine.cipher(blob1(60), null, some(CipherKey.class), null);
        if (t == ECKey.class) { ECKey k = CryptoEngine.randEcKey(ECCurve.p521()); return chance(1, 4) ? CryptoEngine.importEcKey(k.getPubData(), false) : k; }
        if (t == ECDSAResult.class) return CryptoEngine.ecSign(CryptoEngine.randEcKey(ECCurve.p521()), blob1(60), digest());
        if (t == KDFMeta.class) { if (chance(1, 3)) return hkdfMeta(); KDFAlgo a = passphraseAlgo(); return KDFMeta.fromComponents(a, CryptoEngine.kdfFull(a, blob1(20), a.getOutputSize()).getMeta().getSalt(), null); }
        if (t == KDFResult.class) { KDFAlgo a = passphraseAlgo(); return CryptoEngine.kdfFull(a, blob1(20), a.getOutputSize()); }
        if (t == DeviceInfo.class) return chance(1, 2) ? DeviceInfo.gen(blob1(30)) : DeviceInfo.compute(rnd(32), blob1(30));
        if (t == Identity.class) { Identity r = rootIdentity(); return chance(1, 2) ? r.genNode(rnd(32)) : r; }
        if (t == IdentityChain.class) { Identity r = rootIdentity(); return IdentityChain.fromIdentities(r, r.genNode(rnd(32))); }
        if (t == EphemeralKeypair.class) { Identity r = rootIdentity(); return EphemeralKeypair.gen(u64(draw(-1L)), r.genNode(rnd(32))); }
        if (t == Node.class) { IdentityChain ch = some(IdentityChain.class); EphemeralKeypair k = EphemeralKeypair.gen(u64(draw(-1L)), ch.getNode()); return Node.fromValues(rnd(32), ch, k); }
        if (t == WickrArray.class) { int n = (int) draw(3); WickrArray a = WickrArray.allocateNode(n + 1); for (int i = 0; i <= n; i++) a.setNode(i, some(Node.class)); return a; }
        if (t == EphemeralInfo.class) return EphemeralInfo.fromValues(u64(draw(-1L)), u64(draw(-1L)));
        if (t == PacketMeta.class) return PacketMeta.fromValues(some(EphemeralInfo.class), blob1(40), (int) draw(65535));
        if (t == Payload.class) return Payload.fromValues(some(PacketMeta.class), blob1(100));
        if (t == RootKeys.class) return RootKeys.gen();
        if (t == StorageKeys.class) return StorageKeys.createFromKeys(some(CipherKey.class), some(CipherKey.class));
        if (t == ContextGenResult.class) return ContextGenResult.genNew(some(DeviceInfo.class), rnd(32));
        if (t == Context.class) return ContextGenResult.genNew(some(DeviceInfo.class), rnd(32)).getCtx();
        if (t == Fingerprint.class) return some(Identity.class).fingerprint();
        if (t == ECDHCipherContext.class) return ECDHCipherContext.gen(ECCurve.p521(), cipher());
        if (t == KeyExchange.class) return KeyExchange.fromValues(rnd(32), u64(draw(-1L)), some(CipherResult.class));
        Party a = new Party(), b = new Party(); WickrArray nodes = WickrArray.allocateNode(1); nodes.setNode(0, b.node); EncoderResult e = a.ctx.encodePacket(some(Payload.class), nodes);
        if (t == EncoderResult.class) return e;
        if (t == Packet.class) return Packet.createFromBuffer(e.getPacket().serialize());
        ContextParseResult p = b.ctx.parsePacket(e.getPacket().serialize(), a.chain());
        if (t == ContextParseResult.class) return p;
        if (t == ParseResult.class) return p.getParseResult();
        if (t == KeyExchangeSet.class) return p.getParseResult().getKeyExchangeSet();
        if (t == ContextDecodeResult.class) return b.ctx.decodePacket(p, b.key.getEcKey());
        throw new RuntimeException("no generator for " + t);
    }
    static class Party { // someone who sends and receives
        ContextGenResult g; Context ctx; EphemeralKeypair key; Node node; byte[] id = rnd(32);
        Party() { g = ContextGenResult.genNew(DeviceInfo.gen(blob1(20)), id); ctx = g.getCtx(); key = ctx.ephemeralKeypairGen(u64(draw(-1L))); node = Node.fromValues(ctx.getDevInfo().getMsgProtoId(), chain(), key); }
        IdentityChain chain() { return ctx.getIdChain(); }
    }

    // ---------------------------------------------------------------- random histories of calls
    static final Set<String> MUTATORS = new HashSet<>(Arrays.asList("makePublic", "setKeypair", "setNode"));
    static String mname(Method m) { return m.getDeclaringClass().getSimpleName() + "." + m.getName(); }
    static Object argFor(Method m, int i, Class<?> p, boolean nulls) {
        if (p == byte[].class) { if (nulls && chance(1, 8)) return null; return someBytes(80); }
        if (p == String.class) return scratch() + "/j" + draw(3);
        if (p == boolean.class) return chance(1, 2);
        if (p == BigInteger.class) { if (nulls && chance(1, 8)) return null; return u64(draw(-1L)); }
        String n = m.getName();
        if (p == long.class) { if (n.equals("randomBytes")) return edge(300); if (n.equals("allocateNode")) return 1 + draw(4); if (n.startsWith("kdf")) return draw(255); return draw(4); }
        if (p == int.class) return (int) draw(65535);
        if (PROXIES.contains(p)) { if (nulls && chance(1, 8)) return null; return some(p); }
        if (p == IdentityType.class) return chance(1, 2) ? IdentityType.IDENTITY_TYPE_NODE : IdentityType.IDENTITY_TYPE_ROOT;
        if (p == FingerprintOutputType.class) return chance(1, 2) ? FingerprintOutputType.FINGERPRINT_OUTPUT_LONG : FingerprintOutputType.FINGERPRINT_OUTPUT_SHORT;
        throw new RuntimeException("no argument for " + p);
    }
    static Handle handleOf(Object o) { for (Handle h : pool) if (h.o == o) return h; return null; }
    static void history(boolean nulls) {
        pool = new ArrayList<>(); bytes = new ArrayList<>(); int steps = 2 + (int) draw(8);
        for (int s = 0; s < steps; s++) {
            int what = (int) draw(9);
            if (pool.isEmpty() || what < 2) { Class<?> t = CLASSES[(int) draw(CLASSES.length - 1)]; Object o = make(t); if (o == null) { label("not made " + t.getSimpleName()); continue; } add(o, null, "its constructor"); note("new " + t.getSimpleName()); }
            else if (what == 2) { Handle h = pool.get((int) draw(pool.size() - 1)); List<Method> gs = new ArrayList<>(); for (Method m : GETTERS.get(h.o.getClass())) if (PROXIES.contains(m.getReturnType())) gs.add(m); if (gs.isEmpty()) continue; Method m = gs.get((int) draw(gs.size() - 1)); Object o = call(m, h.o); if (o != null) { add(o, h.root, mname(m)); note(mname(m)); label("part"); } }
            else if (what == 3) { int i = (int) draw(pool.size() - 1); note("drop " + pool.get(i).o.getClass().getSimpleName()); pool.remove(i); label("dropped"); }
            else if (what == 4) { note("collect"); gc(); label("collected"); recheck("a collection"); }
            else if (what == 5) { // delete an owner and forget its parts
                Handle h = pool.get((int) draw(pool.size() - 1)); if (h.root != h) continue; pool.removeIf(x -> x.root == h); try { Method d = h.o.getClass().getMethod("delete"); call(d, h.o); call(d, h.o); } catch (NoSuchMethodException e) { } note("delete " + h.o.getClass().getSimpleName()); label("deleted"); }
            else {
                Method m = CALLS.get((int) draw(CALLS.size() - 1)); Object self = Modifier.isStatic(m.getModifiers()) ? null : some(m.getDeclaringClass()); Class<?>[] ps = m.getParameterTypes(); Object[] a = new Object[ps.length];
                for (int i = 0; i < ps.length; i++) a[i] = argFor(m, i, ps[i], nulls);
                if (!allowed(m, self, a)) continue;
                String[] was = new String[a.length]; for (int i = 0; i < a.length; i++) was[i] = snap(a[i]); Object r = null; boolean threw = false;
                if (ONLYNOTE != null) System.err.println("CALL " + m + " " + snap(self) + " " + Arrays.toString(was));
                try { r = call(m, self, a); } catch (NullPointerException | IllegalArgumentException | OutOfMemoryError e) { boolean hasNull = false; for (Object x : a) hasNull |= x == null; check(hasNull, mname(m) + " throws " + e + " without a null argument"); threw = true; }
                note(mname(m) + (threw ? " throws" : r == null ? " null" : "")); label(mname(m) + (r == null || Boolean.FALSE.equals(r) ? " -" : " +"));
                boolean mutates = MUTATORS.contains(m.getName());
                Handle hs = handleOf(self);
                for (int i = 0; i < a.length; i++) { Handle ha = handleOf(a[i]); if (mutates && hs != null && ha != null && ha.root == hs.root) continue; // (a part of what was just replaced)
                    String now = snap(a[i]); check(now.equals(was[i]), mname(m) + " changed its argument " + i + ": " + diff(was[i], now)); }
                if (mutates) { Handle h = hs; if (h != null) { Handle root = h.root; pool.removeIf(x -> x.root == root); } }
                recheck(mname(m));
                if (r instanceof byte[]) bytes.add((byte[]) r);
                else if (r != null && PROXIES.contains(r.getClass())) add(r, null, mname(m));
                if (r != null) nontrivial();
            }
        }
        recheck("everything"); gc(); recheck("a collection"); pool = null; bytes = null;
    }
    // ---------------------------------------------------------------- a part outlives every mention of what it came from
    static Object[] leaf(Class<?> t) {
        Object o = make(t); String path = t.getSimpleName(), was; boolean deeper = true; int steps = 0; check(o != null, "no " + path);
        while (steps < 5) { List<Method> gs = new ArrayList<>(); for (Method m : GETTERS.get(o.getClass())) if (PROXIES.contains(m.getReturnType())) gs.add(m); if (gs.isEmpty() || steps > 0 && chance(1, 4)) break; Method m = gs.get((int) draw(gs.size() - 1)); if (chance(1, 3)) gc(); Object q = call(m, o); if (q == null) break; o = q; steps++; path += "." + m.getName(); }
        return steps == 0 ? null : new Object[] {o, snap(o), path};
    }
    static void parts() {
        List<Object[]> ls = new ArrayList<>(); int n = 1 + (int) draw(3); for (int i = 0; i < n; i++) { Object[] l = leaf(CLASSES[(int) draw(CLASSES.length - 1)]); if (l != null) { ls.add(l); nontrivial(); note((String) l[2]); label("part " + l[2]); } }
        for (int k = 0; k < 2; k++) { gc(); if (k > 0 && chance(1, 2)) make(CLASSES[(int) draw(CLASSES.length - 1)]); for (Object[] l : ls) { String now = snap(l[0]); check(now.equals(l[1]), l[2] + " has changed once nothing else mentions its owner: " + diff((String) l[1], now)); } }
    }
    // ---------------------------------------------------------------- values: every result against the platform's own cryptography or the arguments
    interface X<T> { T get() throws Exception; }
    static <T> T x(X<T> f) { try { return f.get(); } catch (RuntimeException e) { throw e; } catch (Exception e) { throw new RuntimeException(e); } }
    static byte[] cat(byte[]... as) { int n = 0; for (byte[] a : as) n += a.length; byte[] r = new byte[n]; n = 0; for (byte[] a : as) { System.arraycopy(a, 0, r, n, a.length); n += a.length; } return r; }
    static byte[] part(byte[] a, int from, int to) { return Arrays.copyOfRange(a, from, to); }
    static byte[] fixed(BigInteger v, int n) { byte[] b = v.toByteArray(), r = new byte[n]; int k = Math.min(n, b.length); System.arraycopy(b, b.length - k, r, n - k, k); return r; }
    static byte[] other(byte[] pass) { byte[] q = tampered(pass); int n = q.length, k = pass.length; while (n > 0 && q[n - 1] == 0) n--; while (k > 0 && pass[k - 1] == 0) k--; return Arrays.equals(part(q, 0, n), part(pass, 0, k)) ? cat(q, new byte[] {1}) : q; } // (scrypt does not see trailing zeros)
    static byte[] sha(int bits, byte[]... parts) { return x(() -> { java.security.MessageDigest d = java.security.MessageDigest.getInstance("SHA-" + bits); for (byte[] q : parts) d.update(q); return d.digest(); }); }
    static byte[] hmac(int bits, byte[] key, byte[]... parts) { return x(() -> { javax.crypto.Mac m = javax.crypto.Mac.getInstance("HmacSHA" + bits); m.init(new javax.crypto.spec.SecretKeySpec(key.length == 0 ? new byte[1] : key, "x")); for (byte[] q : parts) m.update(q); return m.doFinal(); }); }
    static byte[] expand(int bits, byte[] prk, byte[] info, int n) { byte[] out = new byte[0], t = new byte[0]; for (int i = 1; out.length < n; i++) { t = hmac(bits, prk, t, info, new byte[] {(byte) i}); out = cat(out, t); } return part(out, 0, n); }
    static byte[] jcaCipher(boolean enc, boolean gcm, byte[] key, byte[] iv, byte[] aad, byte[] data) { return x(() -> { javax.crypto.Cipher c = javax.crypto.Cipher.getInstance(gcm ? "AES/GCM/NoPadding" : "AES/CTR/NoPadding"); c.init(enc ? 1 : 2, new javax.crypto.spec.SecretKeySpec(key, "AES"), gcm ? new javax.crypto.spec.GCMParameterSpec(128, iv) : new javax.crypto.spec.IvParameterSpec(iv)); if (aad != null && gcm) c.updateAAD(aad); return c.doFinal(data); }); }
    static java.security.spec.ECParameterSpec params() { return x(() -> { java.security.AlgorithmParameters a = java.security.AlgorithmParameters.getInstance("EC"); a.init(new java.security.spec.ECGenParameterSpec("secp521r1")); return a.getParameterSpec(java.security.spec.ECParameterSpec.class); }); }
    static java.security.PublicKey pub(ECKey k) { byte[] p = k.getPubData(); check(p.length == 134 && p[0] == 0 && p[1] == 4, "public key data " + hex(p)); return x(() -> java.security.KeyFactory.getInstance("EC").generatePublic(new java.security.spec.ECPublicKeySpec(new java.security.spec.ECPoint(new BigInteger(1, part(p, 2, 68)), new BigInteger(1, part(p, 68, 134))), params()))); }
    static java.security.PrivateKey pri(ECKey k) { byte[] p = k.getPriData(); int i = 1; i += (p[1] & 0x80) != 0 ? 1 + (p[1] & 0x7f) : 1; i += 3; int n = p[i + 1]; byte[] s = part(p, i + 2, i + 2 + n); return x(() -> java.security.KeyFactory.getInstance("EC").generatePrivate(new java.security.spec.ECPrivateKeySpec(new BigInteger(1, s), params()))); }
    static boolean gcm(Cipher c) { return c.getIsAuthenticated(); }
    static Digest sha(int bits) { return bits == 256 ? Digest.sha256() : bits == 384 ? Digest.sha384() : Digest.sha512(); }
    static int bits() { return new int[] {512, 384, 256}[(int) draw(2)]; }
    static byte[] orNull(int max) { return chance(1, 3) ? null : blob1(max); }
    static void again(Object o, byte[] ser, Object back) { check(ser != null && back != null, o.getClass().getSimpleName() + ": no round trip"); check(snap(o).equals(snap(back)), o.getClass().getSimpleName() + ": the round trip differs: " + diff(snap(o), snap(back))); }

    static void values() {
        int what = (int) draw(15); nontrivial(); note("values " + what); label("values " + what);
        switch (what) {
        case 0: { int b = bits(); byte[] d = blob1(300), s = orNull(80), r = CryptoEngine.digest(d, s, sha(b)); same("SHA" + b, sha(b, d, s == null ? new byte[0] : s), r); break; }
        case 1: { // symmetric ciphers, both directions
            Cipher c = cipher(); boolean g = gcm(c); int ivn = c.getIvLen(), kn = c.getKeyLen(), tn = c.getAuthTagLen(); check(kn == 32 && ivn == (g ? 12 : 16) && (!g || tn == 16) && c.getCipherId() == (g ? CipherID.CIPHER_ID_AES256_GCM : CipherID.CIPHER_ID_AES256_CTR), "cipher parameters");
            byte[] k = rnd(32), iv = chance(1, 2) ? null : rnd(ivn), aad = g ? orNull(60) : null, p = blob1(200); CipherKey key = CipherKey.fromComponents(c, k); same("key data", k, key.getKeyData()); CipherResult r = CryptoEngine.cipher(p, aad, key, iv);
            check(r != null && r.isValid(), "no valid result"); if (iv != null) same("iv", iv, r.getIv()); check(gcm(r.getCipher()) == g && (r.getAuthTag() != null) == g, "result cipher"); byte[] want = jcaCipher(true, g, k, r.getIv(), aad, p);
            same("ciphertext", want, g ? cat(r.getCipherText(), r.getAuthTag()) : r.getCipherText()); same("decipher", p, CryptoEngine.decipher(r, aad, key, g && chance(1, 2))); byte[] ser = r.serialize(), ks = key.serialize();
            same("serialized result", cat(new byte[] {(byte) (g ? 0 : 1)}, r.getIv(), g ? r.getAuthTag() : new byte[0], r.getCipherText()), ser); same("serialized key", cat(new byte[] {(byte) (g ? 0 : 1)}, k), ks); again(r, ser, CipherResult.fromBuffer(ser)); again(key, ks, CipherKey.fromBuffer(ks));
            byte[] iv2 = rnd(ivn), ct2 = jcaCipher(true, g, k, iv2, aad, p); byte[] wire = g ? cat(new byte[] {0}, iv2, part(ct2, ct2.length - 16, ct2.length), part(ct2, 0, ct2.length - 16)) : cat(new byte[] {1}, iv2, ct2); CipherResult r2 = CipherResult.fromBuffer(wire); check(r2 != null, "foreign result unreadable");
            same("foreign ciphertext", p, CryptoEngine.decipher(r2, aad, key, g)); if (g) { byte[] bad = tampered(wire); CipherResult r3 = CipherResult.fromBuffer(bad); if (r3 != null && gcm(r3.getCipher())) check(CryptoEngine.decipher(r3, aad, key, true) == null, "a changed ciphertext is accepted"); check(CryptoEngine.decipher(r2, cat(aad == null ? new byte[0] : aad, new byte[] {1}), key, true) == null, "other associated data is accepted"); }
            else check(CryptoEngine.decipher(r2, null, key, true) == null, "unauthenticated ciphertext is accepted where only authenticated is allowed");
            break; }
        case 2: { // signatures
            ECKey k = CryptoEngine.randEcKey(ECCurve.p521()); int b = bits(); byte[] m = blob1(100); ECDSAResult r = CryptoEngine.ecSign(k, m, sha(b)); check(r.getDigestMode().getDigestId() == sha(b).getDigestId() && r.getCurve().getIdentifier() == CurveID.EC_CURVE_ID_NIST_P521, "signature parameters");
            check(x(() -> { java.security.Signature v = java.security.Signature.getInstance("SHA" + b + "withECDSA"); v.initVerify(pub(k)); v.update(m); return v.verify(r.getSigData()); }), "the platform refuses the signature"); byte[] raw = CryptoEngine.ecdsaToRaw(r); check(raw.length == 132, "raw length");
            check(x(() -> { java.security.Signature v = java.security.Signature.getInstance("SHA" + b + "withECDSAinP1363Format"); v.initVerify(pub(k)); v.update(m); return v.verify(raw); }), "the platform refuses the raw signature"); ECDSAResult back = CryptoEngine.ecdsaFromRaw(ECCurve.p521(), sha(b), raw); same("signature from raw", r.getSigData(), back.getSigData());
            byte[] own = x(() -> { java.security.Signature v = java.security.Signature.getInstance("SHA" + b + "withECDSA"); v.initSign(pri(k)); v.update(m); return v.sign(); }); ECDSAResult o = ECDSAResult.create(ECCurve.p521(), sha(b), own); ECKey pk = CryptoEngine.importEcKey(k.getPubData(), false); check(pk.getPriData() == null, "a public key has private data");
            check(CryptoEngine.ecVerify(r, pk, m) && CryptoEngine.ecVerify(o, k, m) && CryptoEngine.ecVerify(back, pk, m), "a signature is refused"); check(!CryptoEngine.ecVerify(o, k, tampered(m)) && !CryptoEngine.ecVerify(r, CryptoEngine.randEcKey(ECCurve.p521()), m), "a wrong signature is accepted"); byte[] ser = r.serialize(); check(ser.length == 143, "serialized length"); again(r, ser, ECDSAResult.createFromBuffer(ser));
            again(k, k.getPriData(), CryptoEngine.importEcKey(k.getPriData(), true)); same("fixed length key", cat(k.getPubData(), new byte[134 - k.getPubData().length]), WickrCrypto.wickrEcKeyGetPubdataFixedLen(k)); break; }
        case 3: { // agreement
            ECKey a = CryptoEngine.randEcKey(ECCurve.p521()), b = CryptoEngine.randEcKey(ECCurve.p521()), bp = CryptoEngine.importEcKey(b.getPubData(), false); byte[] want = x(() -> { javax.crypto.KeyAgreement g = javax.crypto.KeyAgreement.getInstance("ECDH"); g.init(pri(a)); g.doPhase(pub(b), true); return g.generateSecret(); });
            same("shared secret", want, CryptoEngine.ecdhGenSharedSecret(a, bp)); same("shared secret of the other side", want, CryptoEngine.ecdhGenSharedSecret(b, a)); Cipher c = cipher(); ECDHCipherContext ca = ECDHCipherContext.fromComponents(a, c), cb = ECDHCipherContext.fromComponents(b, c), cc = ECDHCipherContext.gen(ECCurve.p521(), c); same("local key", a.getPriData(), ca.getLocalKey().getPriData());
            int h = bits(); byte[] salt = rnd(h / 8), info = atMost(1000, blob1(40)), p = blob1(100); KDFMeta m = KDFMeta.fromComponents(h == 512 ? KDFAlgo.hkdfSha512() : h == 384 ? KDFAlgo.hkdfSha384() : KDFAlgo.hkdfSha256(), salt, info); CipherResult r = ca.encrypt(p, bp, m); byte[] k = expand(h, hmac(h, salt, want), info, 32);
            same("agreed ciphertext", jcaCipher(true, gcm(c), k, r.getIv(), null, p), gcm(c) ? cat(r.getCipherText(), r.getAuthTag()) : r.getCipherText()); same("agreed plaintext", p, cb.decrypt(r, a, m)); if (gcm(c)) { check(cc.decrypt(r, a, m) == null && cb.decrypt(r, cc.getLocalKey(), m) == null, "another key deciphers"); check(cb.decrypt(r, a, KDFMeta.fromComponents(m.getAlgo(), salt, tampered(info))) == null, "other parameters decipher"); } break; }
        case 4: { // HKDF
            int h = bits(); boolean ex = h == 512 && chance(1, 3); KDFAlgo a = ex ? KDFAlgo.hkdfSha512Expand() : h == 512 ? KDFAlgo.hkdfSha512() : h == 384 ? KDFAlgo.hkdfSha384() : KDFAlgo.hkdfSha256(); byte[] salt = ex ? null : blob1(80), info = orNull(60), ikm = blob1(80); if (ex && info == null) info = blob1(20); if (info != null) info = atMost(1000, info); // (OpenSSL bounds the info)
            if (ex) ikm = cat(rnd(64), ikm); int n = 1 + (int) draw(254);
            KDFMeta m = KDFMeta.fromComponents(a, salt, info); byte[] inf = info == null ? new byte[0] : info, prk = ex ? ikm : hmac(h, salt, ikm); same("salt", salt, m.getSalt()); same("info", info, m.getInfo()); note("expand " + ex + " ikm " + ikm.length + " salt " + (salt == null ? -1 : salt.length) + " info " + (info == null ? -1 : info.length)); same("derived key", ex ? null : expand(h, prk, inf, h / 8), CryptoEngine.kdfSalt(m, ikm)); same("derived " + n + " bytes", expand(h, prk, inf, n), CryptoEngine.kdfSaltFull(m, ikm, n)); break; }
        case 5: { // passphrases
            KDFAlgo a = passphraseAlgo(); byte[] p = blob1(30), v = blob1(80); KDFResult r = CryptoEngine.kdfFull(a, p, a.getOutputSize()); check(r != null && r.getMeta().getSalt().length == a.getSaltSize() && r.getHash().length == (a.getKdfId() == KDFID.KDF_ID_BCRYPT_15 ? 60 : a.getOutputSize()), "derivation " + a.getKdfId() + " " + (r == null ? "null" : r.getMeta().getSalt().length + " " + r.getHash().length) + " " + a.getSaltSize() + " " + a.getOutputSize()); same("same salt", r.getHash(), CryptoEngine.kdfSalt(r.getMeta(), p)); KDFMeta m = KDFMeta.fromComponents(a, r.getMeta().getSalt(), null); same("same salt again", r.getHash(), CryptoEngine.kdfSalt(m, p));
            byte[] ser = m.serialize(); again(m, ser, KDFMeta.createWithBuffer(ser)); check(KDFMeta.sizeWithBuffer(ser) == ser.length, "size"); if (a.getKdfId() != KDFID.KDF_ID_BCRYPT_15) { byte[] e = CryptoEngine.kdfEncrypt(a, Cipher.aes256Gcm(), v, p); same("decrypted", v, CryptoEngine.kdfDecrypt(e, p)); same("decrypted", v, WickrCrypto.wickrCryptoEngineKdfDecipher(WickrCrypto.wickrCryptoEngineGetDefault(), e, p)); byte[] q = other(p); check(CryptoEngine.kdfDecrypt(e, q) == null, "another passphrase decrypts"); check(CryptoEngine.kdfDecrypt(tampered(e), p) == null, "a changed export decrypts"); } break; }
        case 6: { // files
            String f = scratch() + "/a", g = scratch() + "/b", h = scratch() + "/c"; byte[] p = blob1(5000); x(() -> java.nio.file.Files.write(java.nio.file.Paths.get(f), p)); Cipher c = cipher(); CipherKey k = CryptoEngine.randomKey(c), k2 = CryptoEngine.randomKey(c); boolean auth = chance(1, 2); check(CryptoEngine.cipherFile(k, f, g), "the file is not ciphered"); byte[] e = x(() -> java.nio.file.Files.readAllBytes(java.nio.file.Paths.get(g)));
            int iv = gcm(c) ? 12 : 16, tag = gcm(c) ? 16 : 0; byte[] ct = part(e, 1 + iv + tag, e.length), t = part(e, 1 + iv, 1 + iv + tag); same("deciphered file", p, jcaCipher(false, gcm(c), k.getKeyData(), part(e, 1, 1 + iv), null, cat(ct, t))); check(CryptoEngine.decipherFile(k, g, h, auth) == (gcm(c) || !auth), "deciphering " + (auth ? "authenticated files only" : "any file"));
            if (gcm(c) || !auth) same("file", p, x(() -> java.nio.file.Files.readAllBytes(java.nio.file.Paths.get(h)))); else check(!new java.io.File(h).exists(), "a refused file left output"); new java.io.File(h).delete(); if (gcm(c)) { check(!CryptoEngine.decipherFile(k2, g, h, auth) && !new java.io.File(h).exists(), "another key deciphers"); x(() -> java.nio.file.Files.write(java.nio.file.Paths.get(g), tampered(e))); check(!CryptoEngine.decipherFile(k, g, h, true) && !new java.io.File(h).exists(), "a changed file deciphers"); }
            check(!CryptoEngine.cipherFile(k, scratch() + "/missing", h) && !new java.io.File(h).exists(), "a missing file is ciphered"); new java.io.File(f).delete(); new java.io.File(g).delete(); break; }
        case 7: { // devices
            byte[] s = rnd(32), sys = blob1(60); if (chance(1, 3)) s = blob1(60); DeviceInfo d = DeviceInfo.compute(s, sys); byte[] id = sha(512, sys, s); same("device salt", s, d.getDevSalt()); same("system salt", sha(256, sys), d.getSystemSalt()); same("message id", part(id, 0, 32), d.getMsgProtoId()); same("server id", part(id, 32, 64), d.getSrvCommId()); DeviceInfo g = DeviceInfo.gen(sys); check(snap(g).equals(snap(DeviceInfo.compute(g.getDevSalt(), sys))), "a generated device differs from the computed one"); break; }
        case 8: { // identities
            ECKey k = CryptoEngine.randEcKey(ECCurve.p521()), nk = CryptoEngine.randEcKey(ECCurve.p521()); byte[] id = atMost(127, blob1(127)); Identity r = Identity.fromValues(IdentityType.IDENTITY_TYPE_ROOT, id, k, null); check(r.getType() == IdentityType.IDENTITY_TYPE_ROOT && r.getSignature() == null, "type or signature"); same("identifier", id, r.getIdentifier()); same("key", k.getPriData(), r.getSigKey().getPriData()); check(Identity.fromValues(IdentityType.IDENTITY_TYPE_ROOT, rnd(128 + (int) draw(40)), k, null) == null, "an identifier that is too long");
            byte[] m = blob1(60); check(CryptoEngine.ecVerify(r.signData(m), k, m), "signed data"); Identity n = r.genNode(rnd(32)); check(n.getType() == IdentityType.IDENTITY_TYPE_NODE && CryptoEngine.ecVerify(n.getSignature(), k, n.getSigKey().getPubData()), "the node is not signed by its root"); Identity n2 = Identity.fromValues(IdentityType.IDENTITY_TYPE_NODE, id, nk, CryptoEngine.ecSign(k, nk.getPubData(), Digest.sha512())); again(pubOf(n2), n2.serialize(), Identity.fromBuffer(n2.serialize())); Identity other = rootIdentity();
            IdentityChain c = IdentityChain.fromIdentities(r, n2), c2 = IdentityChain.fromIdentities(other, n); check(c.isValid() && !c2.isValid() && c.isValid() && !c2.isValid(), "chain validity"); check(c.getStatus() == IdentityChainStatus.IDENTITY_CHAIN_STATUS_VALID, "status"); IdentityChain pb = IdentityChain.fromBuffer(c.serialize()), fp = IdentityChain.fromBuffer(c.serializePrivate()); check(pb.isValid() && fp.isValid(), "a restored chain is not valid"); check(pb.getRoot().getSigKey().getPriData() == null && pb.getNode().getSigKey().getPriData() == null, "the public form has private keys"); same("private form", k.getPriData(), fp.getRoot().getSigKey().getPriData()); same("private form", nk.getPriData(), fp.getNode().getSigKey().getPriData());
            for (IdentityChain q : new IdentityChain[] {pb, fp}) { same("root", id, q.getRoot().getIdentifier()); same("root", k.getPubData(), q.getRoot().getSigKey().getPubData()); same("node", id, q.getNode().getIdentifier()); same("node", nk.getPubData(), q.getNode().getSigKey().getPubData()); }
            byte[] fa = sha(512, id, k.getPubData()), fb = sha(512, other.getIdentifier(), other.getSigKey().getPubData()); same("fingerprint", fa, r.fingerprint().getData()); Fingerprint ab = r.bilateralFingerprint(other), ba = other.bilateralFingerprint(r); same("two-party fingerprint", ab.getData(), ba.getData()); same("two-party fingerprint", Arrays.compareUnsigned(fa, fb) > 0 ? sha(512, fa, fb) : sha(512, fb, fa), ab.getData());
            String hx = hex(ab.getData()); check(x(() -> ab.getHexString(FingerprintOutputType.FINGERPRINT_OUTPUT_LONG)).equalsIgnoreCase(hx) && x(() -> ab.getHexString(FingerprintOutputType.FINGERPRINT_OUTPUT_SHORT)).equalsIgnoreCase(hx.substring(0, 64)), "hex"); String b = b32(ab.getData()); check(x(() -> ab.getBase32String(FingerprintOutputType.FINGERPRINT_OUTPUT_LONG)).equals(b) && x(() -> ab.getBase32String(FingerprintOutputType.FINGERPRINT_OUTPUT_SHORT)).equals(b.substring(0, b.length() / 2)), "base32 " + x(() -> ab.getBase32String(FingerprintOutputType.FINGERPRINT_OUTPUT_LONG)) + " and " + b); break; }
        case 9: { // payloads
            BigInteger ttl = u64(edge(-1L)), bor = u64(edge(-1L)); byte[] tag = blob1(80), body = blob1(300); int type = (int) edge(65535); EphemeralInfo e = EphemeralInfo.fromValues(ttl, bor); check(e.getTtl().equals(ttl) && e.getBor().equals(bor), "ephemeral settings " + e.getTtl() + " " + e.getBor()); PacketMeta m = PacketMeta.fromValues(e, tag, type); check(m.getContentType() == type && m.getEphemeralitySettings().getTtl().equals(ttl) && m.getEphemeralitySettings().getBor().equals(bor), "meta data"); same("tag", tag, m.getChannelTag()); Payload p = Payload.fromValues(m, body); same("body", body, p.getBody());
            check(snap(p.getMeta()).equals(snap(m)), "the payload's meta data differs"); again(p, p.serialize(), Payload.createFromBuffer(p.serialize())); CipherKey k = CryptoEngine.randomKey(Cipher.aes256Gcm()); CipherResult r = p.cipher(k); again(p, r.serialize(), Payload.fromCiphertext(r, k)); check(Payload.fromCiphertext(r, CryptoEngine.randomKey(Cipher.aes256Gcm())) == null, "another key deciphers"); break; }
        case 10: { // key pairs and nodes
            Identity r = rootIdentity(), n = r.genNode(rnd(32)), o = rootIdentity(); IdentityChain c = IdentityChain.fromIdentities(r, n); BigInteger id = u64(edge(-1L)); EphemeralKeypair k = EphemeralKeypair.gen(id, n), u = EphemeralKeypair.fromValues(id, k.getEcKey(), null); check(k.getIdentifier().equals(id), "identifier"); check(k.verify(k, n) && !k.verify(k, o), "owner"); byte[] pub = k.getEcKey().getPubData(); again(pubOf(k), WickrCrypto.wickrEphemeralKeypairSerialize(k), WickrCrypto.wickrEphemeralKeypairCreateFromBuffer(WickrCrypto.wickrEphemeralKeypairSerialize(k), WickrCrypto.wickrCryptoEngineGetDefault()));
            byte[] dev = blob1(40); Node node = Node.fromValues(dev, c, k), bad = Node.fromValues(dev, IdentityChain.fromIdentities(o, n), k), bad2 = Node.fromValues(dev, c, EphemeralKeypair.gen(id, o)); same("device", dev, node.getDevId()); check(node.verify() && !bad.verify() && !bad2.verify(), "verification of nodes"); check(node.getStatus() == NodeStatus.NODE_STATUS_VALID && bad.getStatus() != NodeStatus.NODE_STATUS_VALID && bad2.getStatus() != NodeStatus.NODE_STATUS_VALID, "status of nodes");
            Node b = Node.fromBuffer(node.serialize()), b2 = WickrCrypto.wickrNodeCreateFromBuffer(node.serialize(), WickrCrypto.wickrCryptoEngineGetDefault()); for (Node q : new Node[] {b, b2}) { check(q != null && q.verify(), "a restored node does not verify"); same("device", dev, q.getDevId()); check(q.getEphemeralKeypair().getIdentifier().equals(id), "identifier"); same("key", pub, q.getEphemeralKeypair().getEcKey().getPubData()); same("root", r.getSigKey().getPubData(), q.getIdChain().getRoot().getSigKey().getPubData()); }
            EphemeralKeypair k2 = EphemeralKeypair.gen(u64(draw(-1L)), n); check(bad2.setKeypair(k2) && bad2.verify(), "a node with a new key pair does not verify"); same("new key pair", k2.getEcKey().getPubData(), bad2.getEphemeralKeypair().getEcKey().getPubData()); check(k2.getEcKey().getPriData() != null, "the caller's key pair has changed"); k.makePublic(); check(k.getEcKey().getPriData() == null && k.verify(k, n), "made public"); same("made public", pub, k.getEcKey().getPubData());
            int len = 1 + (int) draw(4), at = (int) draw(len - 1); WickrArray a = WickrArray.allocateNode(len); check(a.getItemCount() == len, "length"); check(a.setNode(at, node) && !a.setNode(len, node), "setting an item"); for (int i = 0; i < len; i++) { Node q = a.getNode(i); check((q != null) == (i == at), "item " + i); if (q != null) { same("item", dev, q.getDevId()); again(node, new byte[0], q); } } check(a.getNode(len) == null, "an item beyond the end"); break; }
        case 11: { // keys
            ECKey k = CryptoEngine.randEcKey(ECCurve.p521()); CipherKey l = CryptoEngine.randomKey(cipher()), m = CryptoEngine.randomKey(cipher()); StorageKeys s = StorageKeys.createFromKeys(l, m); check(snap(s.getLocal()).equals(snap(l)) && snap(s.getRemote()).equals(snap(m)), "storage keys"); again(s, s.serialize(), StorageKeys.createFromBuffer(s.serialize())); RootKeys r = RootKeys.fromKeys(k, l, m); check(snap(r.getNodeSignatureRoot()).equals(snap(k)) && snap(r.getNodeStorageRoot()).equals(snap(l)) && snap(r.getRemoteStorageRoot()).equals(snap(m)), "root keys"); again(r, r.serialize(), RootKeys.fromBuffer(r.serialize()));
            CipherKey x = CryptoEngine.randomKey(Cipher.aes256Gcm()); byte[] ex = CryptoEngine.decipher(r.encrypt(x), null, x, true); same("exported root keys", r.serialize(), ex); DeviceInfo d = DeviceInfo.gen(blob1(20)); StorageKeys st = r.toStorageKeys(d); same("remote storage key", m.getKeyData(), st.getRemote().getKeyData()); same("local storage key", sha(256, l.getKeyData(), d.getSystemSalt()), st.getLocal().getKeyData()); break; }
        case 12: { // random values and constants
            int n = 1 + (int) draw(200); byte[] a = CryptoEngine.randomBytes(n), b = CryptoEngine.randomBytes(n); check(a.length == n && b.length == n && (n < 16 || !Arrays.equals(a, b)), "random bytes"); int h = bits(); check(sha(h).getSize() == h / 8 && sha(h).getDigestId() == (h == 256 ? DigestID.DIGEST_ID_SHA256 : h == 384 ? DigestID.DIGEST_ID_SHA384 : DigestID.DIGEST_ID_SHA512), "digest"); check(snap(WickrCrypto.wickrHkdfAlgoForDigest(sha(h))).equals(snap(h == 512 ? KDFAlgo.hkdfSha512() : h == 384 ? KDFAlgo.hkdfSha384() : KDFAlgo.hkdfSha256())), "algorithm of a digest");
            check(WickrCrypto.wickrDigestMatchingCurve(ECCurve.p521()).getSize() == 64 && WickrCrypto.wickrDigestMatchingCipher(cipher()).getSize() == 32 && WickrCrypto.wickrExchangeCipherMatchingCipher(Cipher.aes256Gcm()).getCipherId() == CipherID.CIPHER_ID_AES256_CTR, "matching parameters"); KDFAlgo[] al = {KDFAlgo.scrypt17(), KDFAlgo.scrypt18(), KDFAlgo.scrypt19(), KDFAlgo.scrypt20(), KDFAlgo.bcrypt15(), KDFAlgo.hkdfSha256(), KDFAlgo.hkdfSha384(), KDFAlgo.hkdfSha512(), KDFAlgo.hkdfSha512Expand()}; for (int i = 0; i < al.length; i++) check(al[i].getKdfId().swigValue() == i + 1, "kdf id " + i); break; }
        case 13: { byte[] id = rnd(32); BigInteger k = u64(edge(-1L)); CipherResult r = (CipherResult) make(CipherResult.class); KeyExchange e = KeyExchange.fromValues(id, k, r); check(e.getKeyId().equals(k) && snap(e.getExchangeCiphertext()).equals(snap(r)), "key exchange"); same("exchange id", id, e.getExchangeId()); break; }
        default: conversation();
        }
    }
    static String b32(byte[] d) { String al = "0123456789ABCDEFGHJKMNPQRSTVWXYZ"; StringBuilder s = new StringBuilder(); int acc = 0, n = 0; for (byte b : d) { acc = acc << 8 | (b & 255); n += 8; while (n >= 5) { s.append(al.charAt(acc >> (n - 5) & 31)); n -= 5; } acc &= (1 << n) - 1; } if (n > 0) s.append(al.charAt(acc << (5 - n) & 31)); return s.toString(); }
    static Identity pubOf(Identity i) { return Identity.fromValues(i.getType(), i.getIdentifier(), CryptoEngine.importEcKey(i.getSigKey().getPubData(), false), i.getSignature()); }
    static EphemeralKeypair pubOf(EphemeralKeypair k) { return EphemeralKeypair.fromValues(k.getIdentifier(), CryptoEngine.importEcKey(k.getEcKey().getPubData(), false), k.getSignature()); }

    // ---------------------------------------------------------------- parties that talk, store, export and recover
    static void conversation() {
        int n = 2 + (int) draw(2); List<Party> ps = new ArrayList<>(); for (int i = 0; i < n; i++) ps.add(new Party()); int steps = 1 + (int) draw(4); nontrivial();
        for (int s = 0; s < steps; s++) {
            Party a = ps.get((int) draw(n - 1)); int what = (int) draw(5); note("step " + what); label("conversation " + what);
            if (what <= 1) { // a message for some of them
                List<Party> to = new ArrayList<>(); for (Party q : ps) if (to.isEmpty() || chance(1, 2)) to.add(q); WickrArray nodes = WickrArray.allocateNode(to.size()); for (int i = 0; i < to.size(); i++) check(nodes.setNode(i, to.get(i).node), "node");
                Payload p = (Payload) make(Payload.class); EncoderResult e = a.ctx.encodePacket(p, nodes); check(e != null, "not encoded"); if (chance(1, 3)) { nodes.delete(); gc(); } byte[] wire = e.getPacket().serialize(); again(e.getPacket(), wire, Packet.createFromBuffer(wire));
                check(e.getPacket().getVersion() == a.ctx.getPktEncVersion(), "version");
                for (Party q : ps) { byte[] id = q.chain().getNode().getIdentifier(); ContextParseResult r = q.ctx.parsePacket(wire, a.chain()), nd = q.ctx.parsePacketNoDecode(wire, a.chain()), st = Context.statelessParse(chance(1, 3) ? null : id, wire, a.chain()); check(r != null && nd != null && st != null, "not parsed"); check(nd.getParseResult().getErr() == DecodeError.E_SUCCESS && st.getParseResult().getErr() == DecodeError.E_SUCCESS || !to.contains(q), "parsed without decoding: " + nd.getParseResult().getErr() + " " + st.getParseResult().getErr());
                    if (!to.contains(q)) { check(r.getParseResult().getErr() == DecodeError.ERROR_NODE_NOT_FOUND, "a packet for others parses: " + r.getParseResult().getErr()); ContextDecodeResult d = q.ctx.decodePacket(r, q.key.getEcKey()); check(d == null || d.getDecryptedPayload() == null, "a packet for others is decoded"); continue; }
                    check(r.getParseResult().getErr() == DecodeError.E_SUCCESS && r.getParseResult().getSignatureStatus() == PacketSignatureStatus.PACKET_SIGNATURE_VALID, "parse result"); check(r.getParseResult().getKeyExchange().getKeyId().equals(q.key.getIdentifier()), "key id"); if (chance(1, 4)) gc();
                    ContextDecodeResult d = q.ctx.decodePacket(r, q.key.getEcKey()); check(d != null && d.getErr() == DecodeError.E_SUCCESS, "not decoded"); check(snap(d.getDecryptedPayload()).equals(snap(p)) && snap(d.getPayloadKey()).equals(snap(e.getPacketKey())), "the decoded payload differs"); ContextDecodeResult w = q.ctx.decodePacket(r, EphemeralKeypair.gen(u64(1), q.chain().getNode()).getEcKey()); check(w == null || w.getErr() != DecodeError.E_SUCCESS && w.getDecryptedPayload() == null, "another key decodes");
                    CipherKey hk = a.ctx.getPacketHeaderKey(); KeyExchangeSet ks = r.getParseResult().getKeyExchangeSet(); if (ks != null) { CipherResult h = WickrCrypto.wickrKeyExchangeSetEncrypt(ks, WickrCrypto.wickrCryptoEngineGetDefault(), hk); KeyExchangeSet back = WickrCrypto.wickrKeyExchangeSetCreateFromCipher(WickrCrypto.wickrCryptoEngineGetDefault(), h, hk); again(ks, h.serialize(), back); same("key exchanges", ks.serialize(), back.serialize()); } }
                Party o = ps.get((int) draw(n - 1)); if (o != a) { ContextParseResult r = to.get(0).ctx.parsePacket(wire, o.chain()); check(r == null || r.getParseResult().getErr() != DecodeError.E_SUCCESS, "a packet parses as another sender's"); }
                byte[] bad = tampered(wire); ContextParseResult r = to.get(0).ctx.parsePacket(bad, a.chain()); ContextDecodeResult d = r == null ? null : to.get(0).ctx.decodePacket(r, to.get(0).key.getEcKey()); check(d == null || d.getDecryptedPayload() == null || Arrays.equals(r.getPacket().serialize(), wire), "a changed packet is decoded: " + hex(bad) + " instead of " + hex(wire));
            } else if (what == 2) { // storage
                byte[] p = blob1(100); CipherResult l = a.ctx.cipherLocal(p), r = a.ctx.cipherRemote(p); same("local", p, a.ctx.decipherLocal(l)); same("remote", p, a.ctx.decipherRemote(r)); check(a.ctx.decipherLocal(r) == null && a.ctx.decipherRemote(l) == null, "one storage key deciphers for the other"); same("local key", p, CryptoEngine.decipher(l, null, a.ctx.getStorageKeys().getLocal(), true)); Party o = ps.get((int) draw(n - 1)); if (o != a) check(o.ctx.decipherLocal(l) == null && o.ctx.decipherRemote(r) == null, "another context deciphers");
                byte[] pass = blob1(30), e = a.ctx.exportStorageKeys(pass); again(a.ctx.getStorageKeys(), e, Context.importStorage(e, pass)); byte[] q = other(pass), w = tampered(e); check(Context.importStorage(e, q) == null, "another passphrase imports: " + hex(q) + " for " + hex(pass)); check(Context.importStorage(w, pass) == null, "a changed export imports: " + hex(w) + " for " + hex(e));
            } else if (what == 3) { // serialization and export
                DeviceInfo d = a.ctx.getDevInfo(); byte[] ser = a.ctx.serialize(), pass = blob1(30), e = a.ctx.exportPassphrase(pass); Context b = Context.fromBuffer(d, ser), b2 = Context.importFromBuffer(d, e, pass), b3 = Context.fromValues(d, a.chain(), a.ctx.getStorageKeys()); again(a.ctx, ser, b); again(a.ctx, e, b2); again(a.ctx, e, b3); check(Context.importFromBuffer(d, e, other(pass)) == null && Context.importFromBuffer(d, tampered(e), pass) == null, "a wrong import"); if (chance(1, 2)) { a.g = null; a.ctx = b2; label("continues on the imported context"); }
            } else if (what == 4 && a.g != null) { // recovery
                byte[] rec = a.g.makeRecovery(), pass = blob1(30), ex = a.g.exportRecoveryKeyPassphrase(pass), id = rnd(32); DeviceInfo d = DeviceInfo.gen(blob1(20)); CipherKey rk = ContextGenResult.importRecoveryKeyPassphrase(ex, pass); again(a.g.getRecoveryKey(), ex, rk); check(ContextGenResult.importRecoveryKeyPassphrase(ex, other(pass)) == null, "a wrong passphrase"); again(a.g.getRootKeys(), rec, ContextGenResult.importRecovery(rec, rk)); check(ContextGenResult.importRecovery(tampered(rec), rk) == null, "changed recovery data");
                ContextGenResult g = chance(1, 2) ? ContextGenResult.genWithRecovery(d, rec, rk, id) : ContextGenResult.genWithPassphrase(d, ex, pass, rec, id); again(a.g.getRootKeys(), rec, g.getRootKeys()); again(rk, rec, g.getRecoveryKey()); same("root key", a.g.getRootKeys().getNodeSignatureRoot().getPriData(), g.getCtx().getIdChain().getRoot().getSigKey().getPriData()); same("identifier", id, g.getCtx().getIdChain().getRoot().getIdentifier()); same("remote storage", a.g.getCtx().getStorageKeys().getRemote().getKeyData(), g.getCtx().getStorageKeys().getRemote().getKeyData()); check(snap(g.getCtx().getDevInfo()).equals(snap(d)), "device");
                check(g.getCtx().getIdChain().isValid(), "chain"); check(ContextGenResult.genWithPassphrase(d, ex, other(pass), rec, id) == null, "a wrong passphrase generates"); ContextGenResult g2 = ContextGenResult.genWithRootKeys(d, a.g.getRootKeys(), id), g3 = ContextGenResult.genNewWithSigKey(d, a.g.getRootKeys().getNodeSignatureRoot(), id); again(a.g.getRootKeys(), rec, g2.getRootKeys()); same("signature key", a.g.getRootKeys().getNodeSignatureRoot().getPubData(), g3.getCtx().getIdChain().getRoot().getSigKey().getPubData());
            } else { a.key = a.ctx.ephemeralKeypairGen(u64(edge(-1L))); check(a.key.verify(a.key, a.chain().getNode()), "the new key pair is not its owner's"); check(a.node.setKeypair(a.key) && a.node.verify(), "new key pair"); if (chance(1, 2)) gc(); }
        }
    }
    static String ONLYNOTE = System.getenv("VERIF_CALLS");
    static boolean allowed(Method m, Object self, Object[] a) { return true; }

    public static void run(String sub) {
        pool = null; bytes = null;
        try { switch (sub) { case "history": history(false); break; case "nulls": history(true); break; case "values": values(); break; case "parts": parts(); break; case "conversation": conversation(); break; default: throw new RuntimeException(sub); } }
        finally { pool = null; bytes = null; gc(); }
    }
}
