// C31: the Java interface
// JAVA
#include <jni.h>
#include <dlfcn.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include "common.h"
using namespace pbt;

extern "C" { int vf_jvm = 1; JNIEXPORT jint JNICALL JNI_OnLoad_WickrCrypto(JavaVM *, void *) { return JNI_VERSION_1_8; } }
static Case *g_case; static bool g_discard, g_long; static JNIEnv *g_env; static jclass g_j;

// ---- blocks that the bindings allocated on this thread and nobody has freed
namespace live {
static const size_t CAP = 1 << 17; static const volatile void *tab[CAP]; static size_t n; static volatile bool on; static __thread bool mine; static volatile int lk;
#define NOASAN __attribute__((no_sanitize("address", "undefined")))
static size_t slot(const volatile void *p) { return (size_t)((uintptr_t)p * 0x9E3779B97F4A7C15ull >> 47) & (CAP - 1); }
struct L { NOASAN L() { while (__sync_lock_test_and_set(&lk, 1)); } NOASAN ~L() { __sync_lock_release(&lk); } };
NOASAN static void on_malloc(const volatile void *p, size_t) { if (!on || !mine || !p) return; L l; if (n > CAP / 2) return; size_t i = slot(p); while (tab[i]) i = (i + 1) & (CAP - 1); tab[i] = p; n++; }
NOASAN static void on_free(const volatile void *p) {
    if (!on || !p) return; L l; size_t i = slot(p); while (tab[i] && tab[i] != p) i = (i + 1) & (CAP - 1); if (!tab[i]) return; n--;
    for (size_t j = i;;) { tab[i] = nullptr; for (;;) { j = (j + 1) & (CAP - 1); if (!tab[j]) return; size_t k = slot(tab[j]); if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue; break; } tab[i] = tab[j]; i = j; }
}
static void start() { static bool installed; if (!installed) { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); installed = true; } memset((void *)tab, 0, sizeof tab); n = 0; mine = true; on = true; }
// blocks allocated inside a Java_com_wickr_... function by the library itself or by the JVM on its behalf (libcrypto and libprotobuf keep caches of their own)
static std::string left() {
    mine = false; size_t count = 0; std::string first; static void *ps[CAP]; size_t np = 0; { L l; for (size_t i = 0; i < CAP; i++) if (tab[i]) ps[np++] = (void *)tab[i]; }
    for (size_t i = 0; i < np; i++) {
        void *tr[40]; int tid; size_t k = __asan_get_alloc_stack(ps[i], tr, 40, &tid); std::string s, entry; bool skip = false, jvm = false, held = false; Dl_info d0; if (k && dladdr(tr[0], &d0) && d0.dli_sname && !strncmp(d0.dli_sname, "_Zn", 3)) continue; // (the harness itself)
       
        for (size_t f = 1; f < k && entry.empty(); f++) { Dl_info d; if (!dladdr(tr[f], &d)) continue; if (f == 1 && d.dli_fname && (strstr(d.dli_fname, "libcrypto") || strstr(d.dli_fname, "libprotobuf"))) { skip = true; break; } std::string un; if (f == 1 && d.dli_fname && strstr(d.dli_fname, "libjvm")) jvm = true; for (void *fn : {(void *)g_env->functions->GetByteArrayElements, (void *)g_env->functions->GetStringUTFChars}) if ((char *)tr[f] > (char *)fn && (char *)tr[f] < (char *)fn + 0x600) held = true; if (!d.dli_sname) { un = d.dli_fname ? d.dli_fname : "?"; un = un.substr(un.rfind('/') + 1); } const char *nm = d.dli_sname ? d.dli_sname : un.c_str(); if (!strncmp(nm, "Java_com_wickr_crypto_", 22)) entry = nm; s += (s.empty() ? "" : " < "); s += nm; }
        if (skip || entry.empty() || (jvm && !held)) continue; if (!count++) first = s; // (of what the JVM allocates for itself only the arrays and strings it lends count)
    }
    mine = true;
    return count ? std::to_string(count) + " blocks, first from " + first : "";
}
}
static std::string str(JNIEnv *e, jstring s) { if (!s) return "null"; const char *p = e->GetStringUTFChars(s, nullptr); std::string r = p ? p : ""; if (p) e->ReleaseStringUTFChars(s, p); return r; }
static jbyteArray arr(JNIEnv *e, const Bytes &b) { jbyteArray a = e->NewByteArray((jsize)b.size()); e->SetByteArrayRegion(a, 0, (jsize)b.size(), (const jbyte *)b.data()); return a; }
template <class F> static auto guarded(JNIEnv *e, F f) -> decltype(f()) { try { return f(); } catch (const Discard &) { g_discard = true; e->ThrowNew(e->FindClass("java/lang/IllegalStateException"), "too many choices"); return decltype(f())(); } }
static jlong JNICALL n_draw(JNIEnv *e, jclass, jlong m) { return guarded(e, [&] { return (jlong)g_case->draw((uint64_t)m); }); }
static jlong JNICALL n_edge(JNIEnv *e, jclass, jlong m) { return guarded(e, [&] { return (jlong)g_case->edge((uint64_t)m); }); }
static Bytes rnd_bytes(Case &c, size_t n) { Bytes b(n); uint64_t x = c.draw(0xffffffff) + 1; for (auto &v : b) { x = x * 6364136223846793005ull + 1442695040888963407ull; v = (uint8_t)(x >> 56); } return b; }
static jbyteArray JNICALL n_blob(JNIEnv *e, jclass, jint m) { return guarded(e, [&] { if (g_long && m > 40 && g_case->chance(1, 40)) { Bytes b = rnd_bytes(*g_case, g_case->chance(1, 2) ? 65536 - 2 + g_case->draw(4) : g_case->draw(150000)); return arr(e, b); } return arr(e, g_case->data_upto((size_t)m)); }); }
static jbyteArray JNICALL n_tampered(JNIEnv *e, jclass, jbyteArray a) { return guarded(e, [&] { Bytes b((size_t)e->GetArrayLength(a)); e->GetByteArrayRegion(a, 0, (jsize)b.size(), (jbyte *)b.data()); if (!g_case->tamper(b)) b.push_back(1); return arr(e, b); }); }
static void JNICALL n_label(JNIEnv *e, jclass, jstring s) { g_case->label(str(e, s)); }
static void JNICALL n_note(JNIEnv *e, jclass, jstring s) { g_case->note("%s", str(e, s).c_str()); }
static void JNICALL n_nontrivial(JNIEnv *, jclass) { g_case->nontrivial(); }
static jstring JNICALL n_scratch(JNIEnv *e, jclass) { return e->NewStringUTF(scratch().c_str()); }

static void boot() {
    if (g_env) return; JavaVM *vm; std::vector<std::string> os = {std::string("-Djava.class.path=") + VF_CLASSES, "-XX:+UseSerialGC", "-Xmx192m", "-Xmn64m", "-Xss4m", "-XX:TieredStopAtLevel=1", "-XX:CICompilerCount=1", "-Xrs", "-XX:+ErrorFileToStderr", "-XX:-CreateCoredumpOnCrash", "-XX:-UsePerfData", "-Xshare:auto"};
    std::vector<JavaVMOption> o(os.size()); for (size_t i = 0; i < os.size(); i++) o[i].optionString = (char *)os[i].c_str(); JavaVMInitArgs a; memset(&a, 0, sizeof a); a.version = JNI_VERSION_1_8; a.nOptions = (jint)o.size(); a.options = o.data();
    if (JNI_CreateJavaVM(&vm, (void **)&g_env, &a) != 0) { fprintf(stderr, "no JVM\n"); _exit(3); }
    jclass j = g_env->FindClass("J"); if (!j) { g_env->ExceptionDescribe(); _exit(3); } g_j = (jclass)g_env->NewGlobalRef(j);
    JNINativeMethod ms[] = {{(char *)"draw", (char *)"(J)J", (void *)n_draw}, {(char *)"edge", (char *)"(J)J", (void *)n_edge}, {(char *)"blob", (char *)"(I)[B", (void *)n_blob}, {(char *)"tampered", (char *)"([B)[B", (void *)n_tampered}, {(char *)"label", (char *)"(Ljava/lang/String;)V", (void *)n_label}, {(char *)"note", (char *)"(Ljava/lang/String;)V", (void *)n_note}, {(char *)"nontrivial", (char *)"()V", (void *)n_nontrivial}, {(char *)"scratch", (char *)"()Ljava/lang/String;", (void *)n_scratch}};
    if (g_env->RegisterNatives(g_j, ms, sizeof ms / sizeof *ms)) { g_env->ExceptionDescribe(); _exit(3); }
}
static void java(Case &c, const char *sub) {
    boot(); vf_fast_kdf = 1; g_long = sub[0] == 'v' || sub[0] == 'c'; g_case = &c; g_discard = false; JNIEnv *e = g_env; e->PushLocalFrame(64); std::string err; bool bad = false; static jmethodID m = e->GetStaticMethodID(g_j, "run", "(Ljava/lang/String;)V");
    live::start(); e->CallStaticVoidMethod(g_j, m, e->NewStringUTF(sub));
    if (jthrowable t = e->ExceptionOccurred()) { e->ExceptionClear(); bad = true; jclass f = e->FindClass("J$Fail"); jclass tc = e->FindClass("java/lang/Throwable"); bool is = e->IsInstanceOf(t, f); err = str(e, (jstring)e->CallObjectMethod(t, e->GetMethodID(tc, is ? "getMessage" : "toString", "()Ljava/lang/String;"))); if (!is && !g_discard) e->CallVoidMethod(t, e->GetMethodID(tc, "printStackTrace", "()V")); }
    // (a collection queues its finalizers on a thread of its own)
    std::string l; static jmethodID g = e->GetStaticMethodID(g_j, "gc", "()V"); for (int i = 0; i < 6 && !(l = live::left()).empty(); i++) { if (i) usleep(2000 << i); e->CallStaticVoidMethod(g_j, g); e->ExceptionClear(); } live::on = false; e->PopLocalFrame(nullptr);
    if (g_discard) throw Discard(); if (bad) c.fail("%s", err.c_str()); CHECK(c, l.empty(), "native memory is left behind after every Java object is gone: %s", l.c_str());
}
PROP(C31, history, 4000, 60000) { java(c, "history"); }
PROP(C31, values, 2400, 60000) { java(c, "values"); }
PROP(C31, parts, 2000, 40000) { java(c, "parts"); }
PROP(C31, conversation, 500, 15000) { java(c, "conversation"); }
