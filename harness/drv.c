// Conformance driver: executes one command per input line against the real
// library and answers with one line of JSON describing what was observed.
// Nothing is judged here; the observations are judged by the TLA+ modules in
// ../spec.
#include <passgen/config.h>
#include <passgen/passgen.h>
#include <passgen/generate.h>
#include <passgen/random.h>
#include <passgen/markov.h>
#include <passgen/wordlist.h>
#include <passgen/container/array.h>
#include <passgen/container/hashmap.h>
#include <passgen/container/stack.h>
#include <passgen/parser/parser.h>
#include <passgen/parser/token.h>
#include <passgen/pattern/env.h>
#include <passgen/util/utf8.h>
#include <passgen/util/siphash.h>
#include <errno.h>
#include <math.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <ucontext.h>

// ------------------------------------------------------------------ output
static __thread char *ob;
static __thread size_t ob_len, ob_cap;
static void out(const char *fmt, ...) {
    va_list ap;
    for(;;) {
        if(ob_cap - ob_len < 512) {
            ob_cap = ob_cap ? ob_cap * 2 : 65536;
            ob = realloc(ob, ob_cap);
        }
        va_start(ap, fmt);
        int n = vsnprintf(ob + ob_len, ob_cap - ob_len, fmt, ap);
        va_end(ap);
        if((size_t) n < ob_cap - ob_len) {
            ob_len += n;
            return;
        }
        ob_cap *= 2;
        ob = realloc(ob, ob_cap);
    }
}
static void out_bytes(const uint8_t *b, size_t n) {
    out("[");
    for(size_t i = 0; i < n; i++) out(i ? ",%u" : "%u", b[i]);
    out("]");
}
static void out_big(uint64_t v) {
    // little-endian base 256, no leading zeroes
    out("[");
    for(int i = 0; v; i++, v >>= 8) out(i ? ",%u" : "%u", (unsigned) (v & 255));
    out("]");
}

// ------------------------------------------------------------------- input
static int hexval(char c) {
    if(c >= '0' && c <= '9') return c - '0';
    if(c >= 'a' && c <= 'f') return c - 'a' + 10;
    return -1;
}
// decode hex string into a malloc'ed buffer (with a terminating zero)
static uint8_t *unhex(const char *s, size_t *len) {
    size_t n = strlen(s) / 2;
    if(*s == '-') n = 0;
    uint8_t *r = malloc(n + 1);
    for(size_t i = 0; i < n; i++)
        r[i] = hexval(s[2 * i]) << 4 | hexval(s[2 * i + 1]);
    r[n] = 0;
    if(len) *len = n;
    return r;
}
#define MAXTOK 65536
static char *tokv[MAXTOK];
static int tokc;
static void split(char *line) {
    tokc = 0;
    char *save = NULL;
    for(char *t = strtok_r(line, " \n", &save); t && tokc < MAXTOK;
        t = strtok_r(NULL, " \n", &save))
        tokv[tokc++] = t;
}
static uint64_t u64(const char *s) { return strtoull(s, NULL, 0); }

// ------------------------------------------------------- pattern to JSON
static void out_segs(passgen_pattern_group *g);
static void out_item(passgen_pattern_item *it, uint32_t cp, bool lit, bool last) {
    const char *k = "?";
    if(lit) k = "lit";
    else switch(it->kind) {
        case PASSGEN_PATTERN_SET: k = "set"; break;
        case PASSGEN_PATTERN_GROUP: k = "grp"; break;
        case PASSGEN_PATTERN_SPECIAL:
            switch(it->data.special.kind) {
                case PASSGEN_PATTERN_SPECIAL_WORDLIST: k = "w"; break;
                case PASSGEN_PATTERN_SPECIAL_MARKOV: k = "m"; break;
                case PASSGEN_PATTERN_SPECIAL_PRESET: k = "p"; break;
                default: k = "special?"; break;
            }
            break;
        default: break;
    }
    out("{\"k\":\"%s\",\"cp\":%d,\"ranges\":[", k, lit ? (int) cp : 0);
    if(!lit && it->kind == PASSGEN_PATTERN_SET) {
        for(size_t i = 0; i < it->data.set.items.len; i++) {
            passgen_pattern_range *r = passgen_stack_get(&it->data.set.items, i);
            out("%s[%u,%u]", i ? "," : "", r->start, r->end);
        }
    }
    out("],\"segs\":");
    if(!lit && it->kind == PASSGEN_PATTERN_GROUP) out_segs(&it->data.group);
    else out("[]");
    out(",\"sum\":");
    out_big(!lit && it->kind == PASSGEN_PATTERN_GROUP ? it->data.group.multiplier_sum : 0);
    out(",\"name\":");
    if(!lit && it->kind == PASSGEN_PATTERN_SPECIAL && it->data.special.parameters)
        out_bytes((uint8_t *) it->data.special.parameters, strlen(it->data.special.parameters));
    else out("[]");
    // modifiers apply to the last character of a literal chunk only; the
    // parser splits chunks so that a modified character is on its own.
    out(",\"min\":");
    out_big(it->repeat.min);
    out(",\"max\":");
    out_big(it->repeat.max);
    out(",\"maybe\":%d,\"chunk\":%d}", it->maybe ? 1 : 0,
        (lit && it->data.literal.count > 1 &&
         (it->maybe || it->repeat.min != 1 || it->repeat.max != 1)) ? 1 : 0);
    (void) last;
}
static void out_segs(passgen_pattern_group *g) {
    out("[");
    bool firstseg = true;
    for(size_t i = 0; i < g->segments.len; i++) {
        passgen_pattern_segment *s = passgen_stack_get(&g->segments, i);
        if(s->multiplier == 0) continue;
        out("%s{\"m\":", firstseg ? "" : ",");
        firstseg = false;
        out_big(s->multiplier);
        out(",\"items\":[");
        bool first = true;
        for(size_t j = 0; j < s->items.len; j++) {
            passgen_pattern_item *it = passgen_stack_get(&s->items, j);
            if(it->kind == PASSGEN_PATTERN_GROUP && it->data.group.multiplier_sum == 0)
                continue;
            if(it->kind == PASSGEN_PATTERN_LITERAL) {
                for(size_t k = 0; k < it->data.literal.count; k++) {
                    if(!first) out(",");
                    first = false;
                    out_item(it, it->data.literal.codepoints[k], true, k + 1 == it->data.literal.count);
                }
            } else {
                if(!first) out(",");
                first = false;
                out_item(it, 0, false, true);
            }
        }
        out("]}");
    }
    out("]");
}
static void out_ast(passgen_pattern *p) {
    out("{\"segs\":");
    out_segs(&p->group);
    out(",\"sum\":");
    out_big(p->group.multiplier_sum);
    out("}");
}

// -------------------------------------------------------- random sources
typedef struct {
    uint8_t *data;
    size_t len, pos;   // scripted bytes, then filler zeros
    int kind;          // 0 script, 1 failing
    size_t reads;
    long fail_at;      // read number (0-based) that comes up short
    size_t fail_len;   // how many bytes it delivers
    size_t total;      // bytes delivered by the source so far
} script;
static size_t script_read(void *ctx, void *dest, size_t size) {
    script *s = ctx;
    size_t n = size;
    if(s->kind == 1 && (long) s->reads >= s->fail_at) {
        n = s->fail_len < size ? s->fail_len : size - 1;
    }
    s->reads++;
    for(size_t i = 0; i < n; i++)
        ((uint8_t *) dest)[i] = s->pos < s->len ? s->data[s->pos++] : 0;
    s->total += n;
    return n;
}
static void script_close(void *ctx) {
    script *s = ctx;
    free(s->data);
    free(s);
}
static passgen_random *script_open(uint8_t *data, size_t len) {
    passgen_random *r = calloc(1, sizeof(*r));
    script *s = calloc(1, sizeof(*s));
    s->data = data;
    s->len = len;
    r->context = s;
    r->read = script_read;
    r->close = script_close;
    passgen_random_reload(r);
    return r;
}
// source that yields one byte lane of a running counter: byte i is
// (i >> (8 * lane)) & 255. running the same operations on three lanes tells
// which source byte each delivered byte came from.
typedef struct { size_t pos; int lane; } counter;
static size_t counter_read(void *ctx, void *dest, size_t size) {
    counter *c = ctx;
    for(size_t i = 0; i < size; i++, c->pos++)
        ((uint8_t *) dest)[i] = (c->pos >> (8 * c->lane)) & 255;
    return size;
}
static void counter_close(void *ctx) { free(ctx); }

static bool recording;
static void secret_add(const void *p, size_t n);
// "<variant>,<blocks>,<passes>,<lanes>,<hex passphrase>,<hex domain or !>,<hex token or !>"
static passgen_random *derived_open(passgen_random *at, const char *spec, bool secret) {
    char *copy = strdup(spec), *f[7] = {0}, *save = NULL;
    int n = 0;
    for(char *t = strtok_r(copy, ",", &save); t && n < 7; t = strtok_r(NULL, ",", &save)) f[n++] = t;
    if(n != 7) exit(99);
    passgen_argon2_config c = {atoi(f[0]), atoi(f[1]), atoi(f[2]), atoi(f[3])};
    size_t len[3];
    uint8_t *in[3];
    for(int i = 0; i < 3; i++) {
        in[i] = f[4 + i][0] == '!' ? NULL : unhex(f[4 + i], &len[i]);
        if(secret && in[i]) secret_add(in[i], len[i]);
    }
    recording = secret;
    passgen_random *r = passgen_random_chacha20_argon2_open(at, in[0], in[1], in[2], &c);
    recording = false;
    for(int i = 0; i < 3; i++) {
        if(!in[i]) continue;
        explicit_bzero(in[i], len[i]);
        free(in[i]);
    }
    free(copy);
    return r;
}

// source spec: "s:<hex>" | "d:<hex description>" | "c:<lane>" | "x:<seed>" | "a:<derived>"
static passgen_random *src_open(const char *spec) {
    if(spec[0] == 'a') return derived_open(NULL, spec + 2, false);
    if(spec[0] == 's') {
        size_t n;
        uint8_t *d = unhex(spec + 2, &n);
        return script_open(d, n);
    }
    if(spec[0] == 'd') {
        uint8_t *d = unhex(spec + 2, NULL);
        passgen_random *r = passgen_random_open(NULL, (char *) d);
        free(d);
        return r;
    }
    if(spec[0] == 'c') {
        passgen_random *r = calloc(1, sizeof(*r));
        counter *c = calloc(1, sizeof(*c));
        c->lane = atoi(spec + 2);
        r->context = c;
        r->read = counter_read;
        r->close = counter_close;
        passgen_random_reload(r);
        return r;
    }
    if(spec[0] == 'x') return passgen_random_xorshift_open(NULL, u64(spec + 2));
    return NULL;
}

// ------------------------------------------------------------- commands
static void cmd_parse(void) {
    size_t n;
    uint8_t *s = unhex(tokv[1], &n);
    passgen_pattern p;
    passgen_error e;
    memset(&e, 0, sizeof(e));
    int ret = passgen_parse(&p, &e, (char *) s);
    out("{\"ret\":%d", ret);
    if(ret == 0) {
        out(",\"cp\":0,\"byte\":0,\"msg\":\"\",\"ast\":");
        out_ast(&p);
        passgen_pattern_free(&p);
    } else {
        out(",\"cp\":%zu,\"byte\":%zu,\"msg\":\"%s\",\"ast\":{}", e.offset.codepoint,
            e.offset.byte, e.message ? e.message : "");
        passgen_error_free(&e);
    }
    out("}");
    free(s);
}

// parsen <structure?> (<hex>:<count>)...: the concatenation of repeated parts
static void cmd_parsen(void) {
    size_t len = 0;
    for(int i = 2; i < tokc; i++) {
        char *colon = strchr(tokv[i], ':');
        len += (size_t)(colon - tokv[i]) / 2 * u64(colon + 1);
    }
    uint8_t *s = malloc(len + 1);
    size_t at = 0;
    for(int i = 2; i < tokc; i++) {
        char *colon = strchr(tokv[i], ':');
        uint64_t count = u64(colon + 1);
        *colon = 0;
        size_t n;
        uint8_t *u = unhex(tokv[i], &n);
        for(uint64_t k = 0; k < count; k++, at += n) memcpy(s + at, u, n);
        free(u);
    }
    s[at] = 0;
    passgen_pattern p;
    passgen_error e;
    memset(&e, 0, sizeof(e));
    int ret = passgen_parse(&p, &e, (char *) s);
    out("{\"ret\":%d", ret);
    if(ret == 0) {
        out(",\"cp\":0,\"byte\":0,\"msg\":\"\",\"ast\":");
        if(u64(tokv[1])) out_ast(&p);
        else out("{}");
    } else {
        out(",\"cp\":%zu,\"byte\":%zu,\"msg\":\"%s\",\"ast\":{}", e.offset.codepoint,
            e.offset.byte, e.message ? e.message : "");
        passgen_error_free(&e);
    }
    passgen_pattern_free(&p);
    out("}");
    free(s);
}

// parseu <cp>...: whole-buffer entry point on decoded codepoints
static void cmd_parseu(void) {
    size_t n = tokc - 1;
    uint32_t *cps = malloc((n + 1) * sizeof(*cps));
    for(size_t i = 0; i < n; i++) cps[i] = u64(tokv[1 + i]);
    passgen_pattern p;
    passgen_parser parser;
    passgen_parser_init(&parser, &p);
    int ret = passgen_parser_unicode(&parser, cps, n);
    int fin = ret == 0 ? passgen_parse_finish(&parser) : 0;
    passgen_parser_free(&parser);
    out("{\"ret\":%d,\"fin\":%d,\"ast\":", ret, fin);
    if(ret == 0 && fin == 0) {
        out_ast(&p);
        passgen_pattern_free(&p);
    } else out("{}");
    out("}");
    free(cps);
}

// parset <limit> <cp>...: token by token, with a parser depth limit
static void cmd_parset(void) {
    size_t limit = u64(tokv[1]);
    passgen_pattern p;
    passgen_parser parser;
    passgen_token_parser tp;
    passgen_token tok = {0};
    passgen_token_parser_init(&tp);
    passgen_parser_init(&parser, &p);
    parser.limit = limit;
    int ret = 0, fin = 0, at = -1;
    for(int i = 2; i < tokc; i++) {
        int tr = passgen_token_parse(&tp, &tok, 1, u64(tokv[i]));
        if(tr < 0) {
            ret = -1;
            at = i - 2;
            break;
        }
        if(tr == PASSGEN_TOKEN_INIT) {
            ret = passgen_parse_token(&parser, &tok);
            if(ret != 0) {
                ret = -1;
                at = i - 2;
                break;
            }
        }
    }
    if(ret == 0) {
        fin = tp.state != PASSGEN_TOKEN_INIT ? -1 : passgen_parse_finish(&parser);
    }
    passgen_parser_free(&parser);
    out("{\"ret\":%d,\"at\":%d,\"fin\":%d,\"ast\":", ret, at, fin ? -1 : 0);
    if(ret == 0 && fin == 0) {
        out_ast(&p);
        passgen_pattern_free(&p);
    } else out("{}");
    out("}");
}

// tok <cp:width>...
static void cmd_tok(void) {
    passgen_token_parser tp;
    passgen_token tok = {0};
    passgen_token_parser_init(&tp);
    out("{\"ev\":[");
    for(int i = 1; i < tokc; i++) {
        char *colon = strchr(tokv[i], ':');
        int ret = passgen_token_parse(&tp, &tok, colon ? u64(colon + 1) : 1, u64(tokv[i]));
        bool esc = ret == 0 && (tok.codepoint & PASSGEN_TOKEN_ESCAPED_BIT);
        uint32_t cp = tok.codepoint & ~PASSGEN_TOKEN_ESCAPED_BIT;
        out("%s{\"ret\":%d,\"cp\":%d,\"esc\":%d,\"off\":%zu,\"boff\":%zu}", i > 1 ? "," : "",
            ret, ret == 0 ? (int) cp : 0, ret == 0 ? (int) esc : 0, ret == 0 ? tok.offset : 0,
            ret == 0 ? tok.byte_offset : 0);
    }
    out("],\"msg\":\"%s\"}",
        passgen_token_parse_error_str(tp.state) ? passgen_token_parse_error_str(tp.state) : "");
}

// udec <outlen> <widths 0/1> <hex>
static void cmd_udec(void) {
    size_t outlen = u64(tokv[1]);
    bool w = u64(tokv[2]);
    size_t n;
    uint8_t *in0 = unhex(tokc > 3 ? tokv[3] : "-", &n);
    uint8_t *in = malloc(n ? n : 1); // exact size, so that overreads are seen
    memcpy(in, in0, n);
    free(in0);
    if(n == 0) { free(in); in = malloc(0); }
    uint32_t *o = malloc(outlen * sizeof(*o));
    uint8_t *wd = w ? malloc(outlen) : NULL;
    if(outlen) memset(o, 0xaa, outlen * sizeof(*o));
    if(w && outlen) memset(wd, 0xaa, outlen);
    uint32_t *oc = o;
    const uint8_t *ic = in;
    int ret = passgen_utf8_decode(&oc, outlen, wd, &ic, n);
    size_t no = oc - o, ni = ic - in;
    out("{\"ret\":%d,\"nout\":%zu,\"nin\":%zu,\"cps\":[", ret, no, ni);
    for(size_t i = 0; i < no && i < outlen; i++) out("%s%d", i ? "," : "", (int) o[i]);
    out("],\"w\":[");
    for(size_t i = 0; w && i < no && i < outlen; i++) out("%s%u", i ? "," : "", wd[i]);
    out("]}");
    free(o);
    free(wd);
    free(in);
}

// uenc <outlen> <outpos> <inpos> <cp>...
static void cmd_uenc(void) {
    size_t outlen = u64(tokv[1]), op = u64(tokv[2]), ip = u64(tokv[3]);
    size_t n = tokc - 4;
    uint32_t *in = malloc(n * sizeof(*in));
    for(size_t i = 0; i < n; i++) in[i] = u64(tokv[4 + i]);
    uint8_t *o = malloc(outlen);
    if(outlen) memset(o, 0xaa, outlen);
    int ret = passgen_utf8_encode(o, outlen, &op, in, n, &ip);
    out("{\"ret\":%d,\"outpos\":%zu,\"inpos\":%zu,\"buf\":", ret, op, ip);
    out_bytes(o, outlen);
    out("}");
    free(o);
    free(in);
}

// uenc1 <cp>...: [ret, bytes]
static void cmd_uenc1(void) {
    out("{\"r\":[");
    for(int i = 1; i < tokc; i++) {
        uint8_t *b = malloc(4);
        memset(b, 0, 4);
        int ret = passgen_utf8_encode_codepoint(b, u64(tokv[i]));
        out("%s{\"ret\":%d,\"b\":", i > 1 ? "," : "", ret);
        out_bytes(b, ret > 0 && ret <= 4 ? ret : 0);
        out("}");
        free(b);
    }
    out("]}");
}

// uencr <lo> <hi>: for each codepoint the length (0: refused) and its bytes
static void cmd_uencr(void) {
    bool first = true;
    out("{\"flat\":[");
    for(uint64_t cp = u64(tokv[1]); cp <= u64(tokv[2]); cp++) {
        uint8_t *b = malloc(4);
        int ret = passgen_utf8_encode_codepoint(b, cp);
        out("%s%d", first ? "" : ",", ret > 0 ? ret : 0);
        first = false;
        for(int i = 0; i < ret && i < 4; i++) out(",%u", b[i]);
        free(b);
    }
    out("]}");
}

// ---------------------------------------------------------- generation
typedef struct {
    uint32_t *cps;
    size_t n, cap;
    long abort_at;
    int abort_ret;
    size_t after;  // calls after the abort
    bool aborted;
} collect;
// when generations take turns
typedef struct {
    ucontext_t ctx;
    char *stack;
    struct session *ses;
    char *op, *ob;
    size_t ob_len, ob_cap;
    bool over;
} task;
static task *running;
static ucontext_t scheduler;
static int collect_cb1(void *data, uint32_t cp);
static int collect_cb(void *data, uint32_t cp) {
    int ret = collect_cb1(data, cp);
    if(running && ret == 0) swapcontext(&running->ctx, &scheduler);
    return ret;
}
static int collect_cb1(void *data, uint32_t cp) {
    collect *c = data;
    if(c->aborted) {
        c->after++;
        return c->abort_ret;
    }
    if(c->abort_at >= 0 && (long) c->n == c->abort_at) {
        c->aborted = true;
        return c->abort_ret;
    }
    if(c->n == c->cap) {
        c->cap = c->cap ? 2 * c->cap : 256;
        c->cps = realloc(c->cps, c->cap * sizeof(uint32_t));
    }
    c->cps[c->n++] = cp;
    if(c->n > 200000) {
        c->aborted = true;
        c->abort_ret = -77;
        return -77;
    }
    return 0;
}
static void out_double(double d) {
    // mantissa (integer, little endian base 256) and exponent of two
    if(isinf(d) || isnan(d)) {
        out("{\"fin\":0,\"neg\":%d,\"m\":[],\"e\":0}", d < 0);
        return;
    }
    int e;
    double m = frexp(fabs(d), &e);
    uint64_t mi = (uint64_t) ldexp(m, 53);
    e -= 53;
    while(mi && !(mi & 1)) {
        mi >>= 1;
        e++;
    }
    if(!mi) e = 0;
    out("{\"fin\":1,\"neg\":%d,\"m\":", d < 0);
    out_big(mi);
    out(",\"e\":%d}", e);
}

static bool env_add(passgen_env *env, char *spec) {
    // name(hex):level:data(hex)   ("!" instead of data: unreadable file)
    char *c1 = strchr(spec, ':');
    char *c2 = strchr(c1 + 1, ':');
    *c1 = 0;
    *c2 = 0;
    char *name = (char *) unhex(spec, NULL);
    size_t n;
    FILE *f;
    if(c2[1] == '!') {
        f = fopen("/", "r"); // a directory: opens, cannot be read
    } else {
        uint8_t *d = unhex(c2 + 1, &n);
        f = tmpfile();
        if(n) fwrite(d, 1, n, f);
        rewind(f);
        free(d);
    }
    *c1 = ':';
    *c2 = ':';
    passgen_env_wordlist_add(env, name, f, u64(c1 + 1));
    return true;
}

// one generation. mode: u<len> unicode buffer, b<len> utf8 buffer, j<len>
// json buffer, c<abort_at>:<ret> callback, (c- = never abort). an upper case
// mode letter passes no entropy pointer.
static void gen_one(passgen_pattern *p, passgen_env *env, const char *mode) {
    double entropy = 12345.0;
    double *ep = (mode[0] >= 'A' && mode[0] <= 'Z') ? NULL : &entropy;
    char m = mode[0] | 32;
    size_t pos0 = 0;
    (void) pos0;
    out("{\"mode\":\"%c\"", m);
    if(m == 'c') {
        collect c = {0};
        c.abort_at = mode[1] == '-' ? -1 : strtol(mode + 1, NULL, 10);
        char *colon = strchr(mode, ':');
        c.abort_ret = colon ? atoi(colon + 1) : -5;
        int ret = passgen_generate(p, env, ep, &c, collect_cb);
        out(",\"ret\":%d,\"n\":%zu,\"after\":%zu,\"aborted\":%d,\"o\":[", ret, c.n, c.after, c.aborted);
        for(size_t i = 0; i < c.n; i++) out("%s%d", i ? "," : "", (int) c.cps[i]);
        out("],\"canary\":1");
        free(c.cps);
    } else {
        size_t len = strtoul(mode + 1, NULL, 10);
        size_t esz = m == 'u' ? 4 : 1;
        // canaries on both sides, inside of the allocation; the allocation
        // itself is watched by the sanitizer
        uint8_t *b = malloc(len * esz + 32);
        memset(b, 0xa5, len * esz + 32);
        size_t ret = 0;
        if(m == 'u') ret = passgen_generate_fill_unicode(p, env, ep, (uint32_t *) (b + 16), len);
        if(m == 'b') ret = passgen_generate_fill_utf8(p, env, ep, b + 16, len);
        if(m == 'j') ret = passgen_generate_fill_json_utf8(p, env, ep, b + 16, len);
        int canary = 1;
        for(size_t i = 0; i < 16; i++)
            if(b[i] != 0xa5 || b[16 + len * esz + i] != 0xa5) canary = 0;
        out(",\"ret\":0,\"n\":%zu,\"after\":0,\"aborted\":0,\"o\":[", ret);
        if(ret <= len)
            for(size_t i = 0; i < ret; i++)
                out("%s%d", i ? "," : "", m == 'u' ? (int) ((uint32_t *) (b + 16))[i] : (int) b[16 + i]);
        out("],\"canary\":%d", canary);
        free(b);
        // the same again with an exactly sized allocation for the sanitizer is
        // done by the caller with a fresh source (mode letter with "x")
    }
    out(",\"ent\":");
    if(ep) out_double(entropy);
    else out("{\"fin\":2,\"neg\":0,\"m\":[],\"e\":0}");
    script *s = env->random->read == script_read ? env->random->context : NULL;
    out(",\"used\":%ld", s ? (long) (s->total - (PASSGEN_RANDOM_BUFFER_LENGTH - env->random->pos)) : -1L);
    out("}");
}

// gen <source> <depth> <hex pattern> <mode>... [w=<wordlist spec>]...
static void cmd_gen(void) {
    passgen_pattern p;
    passgen_error e;
    uint8_t *s = unhex(tokv[3], NULL);
    int ret = passgen_parse(&p, &e, (char *) s);
    free(s);
    if(ret != 0) {
        out("{\"parse\":%d,\"g\":[],\"ast\":{}}", ret);
        passgen_error_free(&e);
        return;
    }
    passgen_random *r = src_open(tokv[1]);
    if(!r) {
        out("{\"parse\":0,\"g\":[],\"ast\":{},\"nosource\":1}");
        passgen_pattern_free(&p);
        return;
    }
    passgen_env env;
    passgen_env_init(&env, r);
    if(strcmp(tokv[2], "-") != 0) env.depth_limit = u64(tokv[2]);
    for(int i = 4; i < tokc; i++)
        if(strncmp(tokv[i], "w=", 2) == 0) env_add(&env, tokv[i] + 2);
    out("{\"parse\":0,\"ast\":");
    out_ast(&p);
    out(",\"depth\":%zu,\"g\":[", env.depth_limit);
    bool first = true;
    for(int i = 4; i < tokc; i++) {
        if(strncmp(tokv[i], "w=", 2) == 0) continue;
        if(!first) out(",");
        first = false;
        gen_one(&p, &env, tokv[i]);
    }
    out("]");
    out(",\"ast2\":");
    out_ast(&p);
    out("}");
    passgen_env_free(&env);
    passgen_pattern_free(&p);
}

// ---------------------------------------------------------- randomness ops
static bool quiet;
static void rand_op(passgen_random *r, const char *op) {
    uint8_t *b;
    size_t n;
    switch(op[0]) {
        case 'r': // read n bytes
            n = u64(op + 1);
            b = malloc(n);
            passgen_random_read(r, b, n);
            out_bytes(b, n);
            if(quiet) explicit_bzero(b, n);
            free(b);
            break;
        case 'b':
            out("[%d]", passgen_random_bool(r) ? 1 : 0);
            break;
        case '1': out_big(passgen_random_u8(r)); break;
        case '2': out_big(passgen_random_u16(r)); break;
        case '4': out_big(passgen_random_u32(r)); break;
        case '8': out_big(passgen_random_u64(r)); break;
        case 'm': // m<width>:<max>
            switch(op[1]) {
                case '1': out_big(passgen_random_u8_max(r, u64(op + 3))); break;
                case '2': out_big(passgen_random_u16_max(r, u64(op + 3))); break;
                case '4': out_big(passgen_random_u32_max(r, u64(op + 3))); break;
                default: out_big(passgen_random_u64_max(r, u64(op + 3))); break;
            }
            break;
        case 'R': passgen_random_reload(r); out("[]"); break;
        case 's': passgen_random_chacha20_seek(r, u64(op + 1)); out("[]"); break;
        default: out("[-1]");
    }
}
// rand <source> <op>...
static void cmd_rand(void) {
    passgen_random *r = src_open(tokv[1]);
    if(!r) {
        out("{\"open\":0,\"r\":[],\"used\":-1}");
        return;
    }
    out("{\"open\":1,\"r\":[");
    for(int i = 2; i < tokc; i++) {
        if(i > 2) out(",");
        rand_op(r, tokv[i]);
    }
    out("],\"used\":%ld}", r->read == script_read
        ? (long) (((script *) r->context)->total - (PASSGEN_RANDOM_BUFFER_LENGTH - r->pos)) : -1L);
    passgen_random_free(r);
}

// the system's randomness, scripted: getrandom is trapped and answered from the
// script up to a budget of bytes, with less than was asked for at its end and
// an error after that.
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <stddef.h>
static struct { uint8_t *data; size_t len, pos, budget, calls; } sysrand;
static void sysrand_trap(int sig, siginfo_t *info, void *uc_raw) {
    (void) sig;
    (void) info;
    ucontext_t *uc = uc_raw;
#if defined(__x86_64__)
    uint8_t *dest = (uint8_t *) uc->uc_mcontext.gregs[REG_RDI];
    size_t size = uc->uc_mcontext.gregs[REG_RSI];
#else
    uint8_t *dest = (uint8_t *) uc->uc_mcontext.regs[0];
    size_t size = uc->uc_mcontext.regs[1];
#endif
    size_t left = sysrand.budget - sysrand.pos;
    long ret = size < left ? size : left;
    if(size && !ret) ret = -ENOSYS;
    for(long k = 0; k < ret; k++, sysrand.pos++)
        dest[k] = sysrand.pos < sysrand.len ? sysrand.data[sysrand.pos] : 0;
    sysrand.calls++;
#if defined(__x86_64__)
    uc->uc_mcontext.gregs[REG_RAX] = ret;
#else
    uc->uc_mcontext.regs[0] = ret;
#endif
}
static int sysrand_install(void) {
    struct sigaction sa = {0};
    sa.sa_sigaction = sysrand_trap;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &sa, NULL);
    struct sock_filter code[] = {
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_getrandom, 0, 1),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
    };
    struct sock_fprog prog = {.len = 4, .filter = code};
    if(prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return -1;
    return prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog);
}

// fault <fail_at> <fail_len> <op>...: in a child, on a source whose reads
// from number fail_at on deliver at most fail_len bytes. every operation's
// result is sent to the parent as it completes.
static void cmd_fault(void) {
    int fds[2];
    if(pipe(fds)) exit(99);
    fflush(stdout);
    pid_t pid = fork();
    if(pid == 0) {
        alarm(20);
        close(fds[0]);
        dup2(open("/dev/null", 1), 2);
        ob_len = 0;
        size_t n;
        uint8_t *data = unhex(tokv[3], &n);
        passgen_random *r = calloc(1, sizeof(*r));
        memset(r->buffer, 0xEE, sizeof(r->buffer));
        if(strcmp(tokv[0], "sysfault") == 0) {
            // sysfault <budget> <how> <script> <op>...
            sysrand.data = data;
            sysrand.len = n;
            sysrand.budget = u64(tokv[1]);
            if(sysrand_install()) _exit(97);
            r = tokv[2][0] == 'n' ? passgen_random_open(NULL, NULL)
              : tokv[2][0] == 's' ? passgen_random_open(NULL, "system")
              : passgen_random_open(r, "system");
            if(!r) _exit(1);
            // some other way of getting at randomness: nothing to see here
            if(!sysrand.calls) _exit(96);
        } else {
            script *s = calloc(1, sizeof(*s));
            s->data = data;
            s->len = n;
            s->kind = 1;
            s->fail_at = strtol(tokv[1], NULL, 10);
            s->fail_len = u64(tokv[2]);
            r->context = s;
            r->read = script_read;
            r->close = script_close;
            passgen_random_reload(r);
        }
        for(int i = 4; i < tokc; i++) {
            ob_len = 0;
            if(tokv[i][0] == 'g') {
                // g<hexpattern>: generate
                passgen_pattern p;
                passgen_error e;
                uint8_t *ps = unhex(tokv[i] + 1, NULL);
                passgen_parse(&p, &e, (char *) ps);
                passgen_env env;
                passgen_env_init(&env, r);
                collect c = {0};
                c.abort_at = -1;
                passgen_generate(&p, &env, NULL, &c, collect_cb);
                out("[");
                for(size_t k = 0; k < c.n; k++) out("%s%d", k ? "," : "", (int) c.cps[k]);
                out("]");
            } else {
                rand_op(r, tokv[i]);
            }
            out("\n");
            if(write(fds[1], ob, ob_len) < 0) _exit(98);
        }
        _exit(0);
    }
    close(fds[1]);
    char *buf = malloc(1 << 20);
    size_t len = 0;
    ssize_t k;
    while((k = read(fds[0], buf + len, (1 << 20) - 1 - len)) > 0) len += k;
    buf[len] = 0;
    close(fds[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    out("{\"exit\":%d,\"sig\":%d,\"r\":[", WIFEXITED(st) ? WEXITSTATUS(st) : -1,
        WIFSIGNALED(st) ? WTERMSIG(st) : 0);
    bool first = true;
    char *save = NULL;
    for(char *l = strtok_r(buf, "\n", &save); l; l = strtok_r(NULL, "\n", &save)) {
        out("%s%s", first ? "" : ",", l);
        first = false;
    }
    out("]}");
    free(buf);
}

// ------------------------------------------------------------- containers
// hm <utf8|utf32> <op>...   keys are hex strings (utf8) or cp.cp.cp (utf32);
// values are small integers. i<key>=<val> insert, d<key> remove, l<key>
// lookup, t traverse. every insertion uses its own copy of the key, so the
// returned entry tells which key object was stored.
static void *hm_key(bool u8, const char *s, size_t n) {
    char *t = strndup(s, n);
    void *r;
    if(u8) {
        r = unhex(t, NULL);
    } else {
        uint32_t *k = calloc(strlen(t) + 2, 4);
        size_t i = 0;
        char *save = NULL;
        for(char *p = strtok_r(t, ".", &save); p; p = strtok_r(NULL, ".", &save)) k[i++] = u64(p);
        k = realloc(k, (i + 1) * 4);
        r = k;
    }
    free(t);
    return r;
}
static int hm_cb(void *user, passgen_hashmap_entry *e) {
    bool *first = user;
    out("%s%ld", *first ? "" : ",", (long) (intptr_t) e->value);
    *first = false;
    return 0;
}
static int hm_stop_cb(void *user, passgen_hashmap_entry *e) {
    (void) e;
    long *n = user;
    return ++n[0] == n[1] ? 42 : 0;
}
static void cmd_hm(void) {
    bool u8 = strcmp(tokv[1], "utf8") == 0;
    static void *keys[MAXTOK];
    size_t nkeys = 0;
    passgen_hashmap map;
    passgen_hashmap_init(&map, u8 ? NULL : &passgen_hashmap_context_utf32);
    out("{\"r\":[");
    for(int i = 2; i < tokc; i++) {
        const char *op = tokv[i];
        const char *eq = strchr(op, '=');
        size_t kl = eq ? (size_t) (eq - op - 1) : strlen(op + 1);
        if(i > 2) out(",");
        if(op[0] == 'i') {
            void *k = hm_key(u8, op + 1, kl);
            keys[nkeys++] = k;
            passgen_hashmap_entry e =
                passgen_hashmap_insert(&map, k, (void *) (intptr_t) atol(eq + 1));
            out("{\"v\":%ld,\"has\":%d,\"l\":[],\"len\":%zu}", (long) (intptr_t) e.value, e.key != NULL, map.len);
        } else if(op[0] == 'd') {
            void *k = hm_key(u8, op + 1, kl);
            passgen_hashmap_entry e = passgen_hashmap_remove(&map, k);
            out("{\"v\":%ld,\"has\":%d,\"l\":[],\"len\":%zu}", (long) (intptr_t) e.value, e.key != NULL, map.len);
            free(k);
        } else if(op[0] == 'l') {
            void *k = hm_key(u8, op + 1, kl);
            passgen_hashmap_entry *e = passgen_hashmap_lookup(&map, k);
            out("{\"v\":%ld,\"has\":%d,\"l\":[],\"len\":%zu}", e ? (long) (intptr_t) e->value : 0,
                e != NULL, map.len);
            free(k);
        } else if(op[0] == 't') {
            bool first = true;
            out("{\"v\":0,\"has\":0,\"l\":[");
            passgen_hashmap_foreach(&map, &first, hm_cb);
            out("],\"len\":%zu}", map.len);
        } else if(op[0] == 's') { // stop traversal at the n-th entry
            long st[2] = {0, atol(op + 1)};
            int ret = passgen_hashmap_foreach(&map, st, hm_stop_cb);
            out("{\"v\":%ld,\"has\":%d,\"l\":[],\"len\":%zu}", st[0], ret == 42, map.len);
        }
    }
    out("]}");
    passgen_hashmap_free(&map);
    for(size_t i = 0; i < nkeys; i++) free(keys[i]);
}

// hb <number of keys> <op>...: many keys, "k0", "k1", ... I<a>:<n>:<d> inserts n
// keys from number a on, each with its number plus d for a value, D<a>:<n>
// removes, L<a>:<n> looks up, T traverses. The answers are told as runs
// {h: something was there, d: its value less the number, n: how many alike}
static struct { long h, d, n; bool any; } hb;
static void hb_flush(void) {
    if(hb.n) out("%s{\"h\":%ld,\"d\":%ld,\"n\":%ld}", hb.any ? "," : "", hb.h, hb.d, hb.n), hb.any = true;
    hb.n = 0;
}
static void hb_add(long h, long d) {
    if(hb.n && (hb.h != h || hb.d != d)) hb_flush();
    hb.h = h, hb.d = d;
    hb.n++;
}
struct hb_seen { long *h, *d, n; const char *base; };
static int hb_cb(void *user, passgen_hashmap_entry *e) {
    struct hb_seen *s = user;
    long k = atol((const char *) e->key + 1);
    s->h[k]++;
    s->d[k] = (long) (intptr_t) e->value - k;
    return 0;
}
static void cmd_hb(void) {
    size_t n = u64(tokv[1]);
    char *keys = malloc(n * 12), *other = malloc(n * 12);
    for(size_t k = 0; k < n; k++) {
        snprintf(keys + 12 * k, 12, "k%zu", k);
        snprintf(other + 12 * k, 12, "k%zu", k);
    }
    passgen_hashmap map;
    passgen_hashmap_init(&map, NULL);
    out("{\"r\":[");
    for(int i = 2; i < tokc; i++) {
        size_t f[3] = {0};
        char *e = tokv[i] + 1;
        for(int j = 0; j < 3 && *e; j++) f[j] = strtoull(e, &e, 10), e += *e == ':';
        memset(&hb, 0, sizeof(hb));
        out("%s{\"l\":[", i > 2 ? "," : "");
        if(tokv[i][0] == 'T') {
            struct hb_seen s = {calloc(n, sizeof(long)), calloc(n, sizeof(long)), 0, keys};
            passgen_hashmap_foreach(&map, &s, hb_cb);
            for(size_t k = 0; k < n; k++) hb_add(s.h[k], s.d[k]);
            free(s.h);
            free(s.d);
        }
        for(size_t k = f[0]; tokv[i][0] != 'T' && k < f[0] + f[1]; k++) {
            passgen_hashmap_entry x = {0}, *p = NULL;
            switch(tokv[i][0]) {
                case 'I': x = passgen_hashmap_insert(&map, keys + 12 * k, (void *) (intptr_t) (k + f[2])); break;
                case 'D': x = passgen_hashmap_remove(&map, other + 12 * k); break;
                default:
                    p = passgen_hashmap_lookup(&map, other + 12 * k);
                    if(p) x = *p;
            }
            hb_add(x.key != NULL, x.key ? (long) (intptr_t) x.value - (long) k : 0);
        }
        hb_flush();
        out("],\"len\":%zu}", map.len);
    }
    out("]}");
    passgen_hashmap_free(&map);
    free(keys);
    free(other);
}

static void st_cb(void *el);
static size_t st_esz;
static uint8_t *st_buf;
static bool st_first;
static long el_id(const uint8_t *el) {
    // element content is a function of its id: byte j = (id*31 + j*7) & 255
    // with the first min(4, size) bytes holding the id itself
    long id = 0;
    size_t w = st_esz < 3 ? st_esz : 3;
    for(size_t j = 0; j < w; j++) id |= (long) el[j] << (8 * j);
    for(size_t j = w; j < st_esz; j++)
        if(el[j] != (uint8_t) (id * 31 + j * 7)) return -2;
    return id;
}
static void el_make(uint8_t *el, long id) {
    size_t w = st_esz < 3 ? st_esz : 3;
    for(size_t j = 0; j < w; j++) el[j] = id >> (8 * j);
    for(size_t j = w; j < st_esz; j++) el[j] = (uint8_t) (id * 31 + j * 7);
}
static void st_cb(void *el) {
    out("%s%ld", st_first ? "" : ",", el_id(el));
    st_first = false;
}
// long runs of elements, told as <<first, number>> in which each id follows the
// one before it (modulo md)
static struct { long md, step, first, prev, n; bool any; } runs;
static void run_flush(void) {
    if(runs.n) out("%s{\"f\":%ld,\"n\":%ld}", runs.any ? "," : "", runs.first, runs.n), runs.any = true;
    runs.n = 0;
}
static void run_start(long md, long step) { runs.md = md, runs.step = step, runs.n = 0, runs.any = false; }
static void run_add(long id) {
    if(!runs.n || id != (runs.prev + runs.step + runs.md) % runs.md) run_flush(), runs.first = id;
    runs.prev = id;
    runs.n++;
}
static void run_cb(void *el) { run_add(el_id(el)); }
static size_t bulk(const char *op, size_t f[3]) {
    size_t n = 0;
    char *e = (char *) op + 1;
    while(n < 3 && *e) f[n++] = strtoull(e, &e, 10), e += *e == ':';
    return n;
}
// st <element size> <op>...: B<id>:<number>:<modulus> push many, D<number>:<modulus>
// pop many, F<modulus> traverse, p<id> push by value, P<id> push NULL and write
// through the returned pointer, o pop, O pop without copy, g<pos> get, t top, f
// traverse
static void cmd_st(void) {
    st_esz = u64(tokv[1]);
    st_buf = malloc(st_esz);
    passgen_stack s;
    passgen_stack_init(&s, st_esz);
    out("{\"r\":[");
    for(int i = 2; i < tokc; i++) {
        const char *op = tokv[i];
        if(i > 2) out(",");
        long v = -1;
        out("{\"l\":[");
        void *p;
        switch(op[0]) {
            case 'p':
                el_make(st_buf, atol(op + 1));
                p = passgen_stack_push(&s, st_buf);
                v = p ? el_id(p) : -1;
                break;
            case 'P':
                p = passgen_stack_push(&s, NULL);
                if(p) el_make(p, atol(op + 1));
                v = p ? el_id(p) : -1;
                break;
            case 'o':
                memset(st_buf, 0xcc, st_esz);
                p = passgen_stack_pop(&s, st_buf);
                v = p ? (p == st_buf ? el_id(st_buf) : -3) : -1;
                break;
            case 'O':
                p = passgen_stack_pop(&s, NULL);
                v = -4;
                break;
            case 'g':
                p = passgen_stack_get(&s, u64(op + 1));
                v = p ? el_id(p) : -1;
                break;
            case 't':
                p = passgen_stack_top(&s);
                v = p ? el_id(p) : -1;
                break;
            case 'f':
                st_first = true;
                passgen_stack_foreach(&s, st_cb);
                v = 0;
                break;
            case 'B': {
                size_t f[3];
                bulk(op, f);
                run_start(f[2], 1);
                for(size_t k = 0; k < f[1]; k++) {
                    el_make(st_buf, (f[0] + k) % f[2]);
                    p = passgen_stack_push(&s, st_buf);
                    run_add(p ? el_id(p) : -1);
                }
                run_flush();
                break;
            }
            case 'D': {
                size_t f[3];
                bulk(op, f);
                run_start(f[1], -1);
                for(size_t k = 0; k < f[0]; k++) {
                    memset(st_buf, 0xcc, st_esz);
                    p = passgen_stack_pop(&s, st_buf);
                    run_add(p ? p == st_buf ? el_id(st_buf) : -3 : -1);
                }
                run_flush();
                break;
            }
            case 'F': {
                size_t f[3];
                bulk(op, f);
                run_start(f[0], 1);
                passgen_stack_foreach(&s, run_cb);
                run_flush();
                break;
            }
        }
        out("],\"v\":%ld,\"len\":%zu}", v, s.len);
    }
    out("]}");
    passgen_stack_free(&s);
    free(st_buf);
}
// ar <capacity> <op>...: p<id>, o, g<pos>
static void cmd_ar(void) {
    passgen_array a;
    passgen_array_init(&a, u64(tokv[1]));
    out("{\"r\":[");
    for(int i = 2; i < tokc; i++) {
        const char *op = tokv[i];
        if(i > 2) out(",");
        long v = -1;
        size_t f[3];
        out("{\"l\":[");
        switch(op[0]) {
            case 'B':
                bulk(op, f);
                run_start(f[2], 1);
                for(size_t k = 0; k < f[1]; k++) {
                    passgen_array_push(&a, (void *) (intptr_t) ((f[0] + k) % f[2] + 1));
                    run_add((f[0] + k) % f[2]);
                }
                run_flush();
                break;
            case 'D':
                bulk(op, f);
                run_start(f[1], -1);
                for(size_t k = 0; k < f[0]; k++) run_add((long) (intptr_t) passgen_array_pop(&a) - 1);
                run_flush();
                break;
            case 'F':
                bulk(op, f);
                run_start(f[0], 1);
                for(size_t k = 0; k < a.items; k++) run_add((long) (intptr_t) passgen_array_get(&a, k) - 1);
                run_flush();
                break;
            case 'p':
                passgen_array_push(&a, (void *) (intptr_t) (atol(op + 1) + 1));
                v = atol(op + 1);
                break;
            case 'o': v = (long) (intptr_t) passgen_array_pop(&a) - 1; break;
            case 'g': v = (long) (intptr_t) passgen_array_get(&a, u64(op + 1)) - 1; break;
        }
        out("],\"v\":%ld,\"len\":%zu}", v, a.items);
    }
    out("]}");
    passgen_array_free(&a);
}

// ---------------------------------------------------------------- wordlist
// wl <hex data | ! directory | '|' pipe>: words
static void cmd_wl(void) {
    size_t n;
    uint8_t *d = unhex(tokc > 1 ? tokv[1] : "-", &n);
    FILE *f;
    if(tokv[1][0] == '!') {
        f = fopen("/", "r"); // a directory
    } else if(tokv[1][0] == '|') {
        int fds[2]; // a pipe
        if(pipe(fds)) abort();
        if(write(fds[1], "abc\ndef\n", 8) != 8) abort();
        close(fds[1]);
        f = fdopen(fds[0], "r");
    } else {
        f = tmpfile();
        if(n) fwrite(d, 1, n, f);
        rewind(f);
    }
    passgen_wordlist w;
    passgen_wordlist_init(&w, f, 2);
    int ret = passgen_wordlist_parse(&w);
    out("{\"ret\":%d,\"count\":%zu,\"words\":[", ret, passgen_wordlist_count(&w));
    for(size_t i = 0; i < w.count; i++) {
        if(i) out(",");
        out_bytes((uint8_t *) w.words[i], strlen(w.words[i]));
    }
    out("]}");
    passgen_wordlist_free(&w);
    free(d);
}

// mk <level> <ops>: a<weight>:cp.cp... add word; q<v.v..>:<bound> query: in the
// context v.v.. (level codepoints) enumerate all choices by exhausting the
// values below the total (scripted draws). reports [codepoint, count] pairs as
// observed by drawing each value once, and the entropy factor.
static size_t parse_cps(const char *s, uint32_t *dst, size_t max) {
    size_t n = 0;
    while(*s && *s != ':' && n < max) {
        if(*s == '.') { s++; continue; }
        dst[n++] = strtoul(s, (char **) &s, 10);
    }
    return n;
}
static void mk_run(uint32_t cp, long used, double ent, uint64_t rep, bool last) {
    out("{\"cp\":%d,\"used\":%ld,\"rep\":%llu,\"ent\":", (int) cp, used, (unsigned long long) rep);
    out_double(ent);
    out(last ? "}" : "},");
}
static void cmd_mk(void) {
    size_t level = u64(tokv[1]);
    passgen_markov mk;
    passgen_markov_init(&mk, level);
    uint32_t cps[4096];
    out("{\"r\":[");
    bool first = true;
    for(int i = 2; i < tokc; i++) {
        const char *op = tokv[i];
        if(op[0] == 'a') {
            size_t weight = strtoul(op + 1, NULL, 10);
            size_t n = parse_cps(strchr(op, ':') + 1, cps, 4096);
            uint32_t *w = malloc((n ? n : 1) * sizeof(*w));
            memcpy(w, cps, n * sizeof(*w));
            passgen_markov_add(&mk, w, n, weight);
            free(w);
        } else if(op[0] == 'q') {
            uint64_t total = strtoull(strchr(op, ':') + 1, NULL, 10);
            uint32_t *ctx = calloc(level, sizeof(*ctx));
            parse_cps(op + 1, ctx, level);
            if(!first) out(",");
            first = false;
            out("[");
            // runs of values with the same outcome
            uint32_t lcp = 0;
            long lused = 0;
            double lent = 0;
            uint64_t rep = 0;
            for(uint64_t v = 0; v < total; v++) {
                // every draw sees v first, then zeros
                uint8_t *d = calloc(8, 1);
                for(int k = 0; k < 8; k++) d[k] = v >> (8 * k);
                passgen_random *r = script_open(d, 8);
                double e = 1.0;
                uint32_t cp = passgen_markov_generate(&mk, ctx, r, &e);
                script *s = r->context;
                long used = s->total - (PASSGEN_RANDOM_BUFFER_LENGTH - r->pos);
                passgen_random_free(r);
                if(rep && cp == lcp && used == lused && e == lent) { rep++; continue; }
                if(rep) mk_run(lcp, lused, lent, rep, false);
                lcp = cp, lused = used, lent = e, rep = 1;
            }
            if(rep) mk_run(lcp, lused, lent, rep, true);
            out("]");
            free(ctx);
        }
    }
    out("],\"count\":%zu}", mk.count);
    passgen_markov_free(&mk);
}

// ----------------------------------------------------------------- wiping
// what the library passes to free() while it opens, closes and frees handles is
// looked at first
#ifdef WRAP_FREE
#include <malloc.h>
extern void __real_free(void *p);
static size_t nonzero(const void *p, size_t n) {
    size_t r = 0;
    for(size_t k = 0; k < n; k++)
        if(((const volatile uint8_t *) p)[k]) r++;
    return r;
}
// secrets so far: every window of eight bytes that is varied enough to be told
// apart from what memory holds by chance
#define NWIN 65536
static uint64_t wins[NWIN];
static size_t nwins;
static bool varied(uint64_t w) {
    int n = 0;
    for(int i = 0; i < 8; i++) {
        int k = 0;
        for(int j = 0; j < i; j++)
            if(((w >> 8 * i) & 255) == ((w >> 8 * j) & 255)) k = 1;
        n += !k;
    }
    return n >= 6;
}
static void secret_add(const void *p, size_t n) {
    for(size_t k = 0; k + 8 <= n && nwins < NWIN / 2; k++) {
        uint64_t w;
        memcpy(&w, (const uint8_t *) p + k, 8);
        if(!varied(w)) continue;
        size_t at = (w * 0x9e3779b97f4a7c15u) >> 48;
        while(wins[at % NWIN] && wins[at % NWIN] != w) at++;
        if(!wins[at % NWIN]) nwins++;
        wins[at % NWIN] = w;
    }
}
static size_t hits(const void *p, size_t n) {
    size_t r = 0;
    for(size_t k = 0; k + 8 <= n; k++) {
        uint64_t w;
        memcpy(&w, (const uint8_t *) p + k, 8);
        if(!w) continue;
        size_t at = (w * 0x9e3779b97f4a7c15u) >> 48;
        while(wins[at % NWIN] && wins[at % NWIN] != w) at++;
        if(wins[at % NWIN] == w) r++;
    }
    return r;
}
// released blocks of the operation under way
#define NREL 64
static struct { uint8_t *copy; size_t n; const void *at; } rel[NREL];
static int nrel;
static bool recording;
// sizes of the blocks taken while a handle is opened or used
#define NTAKEN 4096
static struct { void *at; size_t n; } taken[NTAKEN];
static int ntaken;
extern void *__real_malloc(size_t n);
extern void *__real_calloc(size_t k, size_t n);
extern void *__real_realloc(void *p, size_t n);
static void *take(void *p, size_t n) {
    if(recording && p && ntaken < NTAKEN) {
        taken[ntaken].at = p;
        taken[ntaken++].n = n;
    }
    return p;
}
void *__wrap_malloc(size_t n) { return take(__real_malloc(n), n); }
void *__wrap_calloc(size_t k, size_t n) { return take(__real_calloc(k, n), k * n); }
void *__wrap_realloc(void *p, size_t n) { return take(__real_realloc(p, n), n); }
static size_t size_of(void *p) {
    for(int i = ntaken; i-- > 0;)
        if(taken[i].at == p) return taken[i].n;
    return malloc_usable_size(p);
}
void __wrap_free(void *p) {
    if(recording && p && nrel < NREL) {
        size_t n = size_of(p);
        rel[nrel].copy = malloc(n);
        memcpy(rel[nrel].copy, p, n);
        rel[nrel].n = n;
        rel[nrel].at = p;
        nrel++;
    }
    __real_free(p);
}
static void rel_clear(void) {
    for(int i = 0; i < nrel; i++) {
        explicit_bzero(rel[i].copy, rel[i].n);
        __real_free(rel[i].copy);
    }
    nrel = 0;
}
static void rel_out(const void *handle, const void *state, size_t statelen) {
    out(",\"rel\":[");
    for(int i = 0; i < nrel; i++) {
        size_t n = rel[i].n;
        const char *who = "other";
        if(rel[i].at == handle) { who = "handle"; n = sizeof(passgen_random); }
        else if(rel[i].at == state) { who = "state"; if(n > statelen) n = statelen; }
        rel[i].n = n;
        out("%s{\"who\":\"%s\",\"n\":%zu,\"nz\":%zu,\"hits\":%zu}", i ? "," : "", who, rel[i].n, nonzero(rel[i].copy, n), hits(rel[i].copy, rel[i].n));
    }
    out("]}");
    rel_clear();
}
// wipe <op>...: the life of handles, one after the other.
//   O<source>  open in the caller's memory      N<source>  open in new memory
//   c          close (the caller's memory)      f          free (new memory)
//   anything else is a randomness operation
// reported are what was in the memory of the handle and in the blocks that were
// released: bytes that are not zero, and pieces of secrets.
static void cmd_wipe(void) {
    static passgen_random mine;
    explicit_bzero(&mine, sizeof(mine));
    passgen_random *r = NULL;
    size_t statelen = 0;
    memset(wins, 0, sizeof(wins));
    nwins = ntaken = 0;
    out("{\"ev\":[");
    for(int i = 1; i < tokc; i++) {
        char *op = tokv[i];
        if(i > 1) out(",");
        size_t keep;
        switch(op[0]) {
            case 'O':
            case 'N': {
                passgen_random *at = op[0] == 'O' ? &mine : NULL;
                size_t n;
                bool derived = op[1] == '@';
                uint8_t *d = unhex(derived ? "636861" : op + 1, &n);
                if(derived) {
                    r = derived_open(at, op + 2, true);
                } else {
                    if(strncmp((char *) d, "cha", 3) == 0) secret_add(d, n);
                    recording = true;
                    r = passgen_random_open(at, (char *) d);
                    recording = false;
                }
                // what earlier handles left, in what this one shows
                out("{\"e\":\"open\",\"kept\":0,\"ok\":%d,\"nz\":%zu,\"hits\":%zu", r != NULL,
                    r ? nonzero(r->buffer, sizeof(r->buffer)) : 0, r ? hits(r->buffer, sizeof(r->buffer)) : 0);
                statelen = 0;
                if(r) {
                    if(strncmp((char *) d, "xor", 3) == 0) statelen = 8;
                    if(strncmp((char *) d, "cha", 3) == 0) statelen = 32;
                    secret_add(r->buffer, sizeof(r->buffer));
                    if(statelen) secret_add(r->context, statelen);
                }
                rel_out(NULL, NULL, 0);
                explicit_bzero(d, n);
                __real_free(d);
                break;
            }
            case 'c':
            case 'f': {
                const void *state = statelen ? r->context : NULL;
                const void *handle = op[0] == 'f' ? r : NULL;
                secret_add(r->buffer, sizeof(r->buffer));
                if(statelen) secret_add(r->context, statelen);
                bool apart = state && ((uint8_t *) state < (uint8_t *) r || (uint8_t *) state >= (uint8_t *) (r + 1));
                out("{\"e\":\"%s\",\"ok\":1,\"kept\":%d", op[0] == 'c' ? "close" : "free", apart);
                recording = true;
                if(op[0] == 'c') passgen_random_close(r);
                else passgen_random_free(r);
                recording = false;
                if(op[0] == 'c') out(",\"nz\":%zu,\"hits\":%zu", nonzero(&mine, sizeof(mine)), hits(&mine, sizeof(mine)));
                else out(",\"nz\":0,\"hits\":0");
                rel_out(handle, state, statelen);
                r = NULL;
                break;
            }
            default: // drawn values stay with the caller
                keep = ob_len;
                quiet = true;
                recording = true;
                rand_op(r, op);
                recording = false;
                quiet = false;
                ob_len = keep;
                secret_add(r->buffer, sizeof(r->buffer));
                out("{\"e\":\"use\",\"ok\":1,\"kept\":0,\"nz\":0,\"hits\":0,\"rel\":[]}");
                rel_clear(); // the driver's own
        }
    }
    out("]}");
    if(r == &mine) passgen_random_close(r);
    else if(r) passgen_random_free(r);
}
// wipes <what>: container structures are cleared
static void cmd_wipes(void) {
    const char *w = tokv[1];
    size_t before = 0, left = 0;
    if(strcmp(w, "hashmap") == 0) {
        passgen_hashmap m;
        passgen_hashmap_init(&m, NULL);
        passgen_hashmap_insert(&m, "a", "b");
        before = nonzero(&m, sizeof(m));
        passgen_hashmap_free(&m);
        left = nonzero(&m, sizeof(m));
    } else if(strcmp(w, "stack") == 0) {
        passgen_stack s;
        passgen_stack_init(&s, 8);
        uint64_t v = 77;
        passgen_stack_push(&s, &v);
        before = nonzero(&s, sizeof(s));
        passgen_stack_free(&s);
        left = nonzero(&s, sizeof(s));
    } else if(strcmp(w, "array") == 0) {
        passgen_array a;
        passgen_array_init(&a, 4);
        passgen_array_push(&a, &a);
        before = nonzero(&a, sizeof(a));
        passgen_array_free(&a);
        left = nonzero(&a, sizeof(a));
    } else if(strcmp(w, "pattern") == 0) {
        passgen_pattern p;
        passgen_error e;
        passgen_parse(&p, &e, "ab[c-d]{2}(x|y)\\w{foo}");
        before = nonzero(&p, sizeof(p));
        passgen_pattern_free(&p);
        left = nonzero(&p, sizeof(p));
    } else if(strcmp(w, "env") == 0) {
        passgen_env env;
        passgen_env_init(&env, src_open("x:77"));
        before = nonzero(&env, sizeof(env));
        passgen_env_free(&env);
        left = nonzero(&env, sizeof(env));
    } else if(strcmp(w, "wordlist") == 0) {
        passgen_wordlist wl;
        FILE *f = tmpfile();
        fputs("abc\ndef\n", f);
        rewind(f);
        passgen_wordlist_load(&wl, f, 2);
        before = nonzero(&wl, sizeof(wl));
        passgen_wordlist_free(&wl);
        left = nonzero(&wl, sizeof(wl));
    } else if(strcmp(w, "markov") == 0) {
        passgen_markov mk;
        passgen_markov_init(&mk, 2);
        uint32_t word[] = {'a', 'b'};
        passgen_markov_add(&mk, word, 2, 1);
        before = nonzero(&mk, sizeof(mk));
        passgen_markov_free(&mk);
        left = nonzero(&mk, sizeof(mk));
    } else if(strcmp(w, "error") == 0) {
        passgen_error e;
        passgen_error_init(&e, "x");
        before = nonzero(&e, sizeof(e));
        passgen_error_free(&e);
        left = nonzero(&e, sizeof(e));
    }
    out("{\"ev\":[{\"e\":\"filled\",\"ok\":1,\"nz\":%zu,\"hits\":0,\"rel\":[]},{\"e\":\"cleared\",\"ok\":1,\"nz\":%zu,\"hits\":0,\"rel\":[]}]}",
        before, left);
}
#endif

// ---------------------------------------------------------------- sessions
// ses <op>...: several handles at once.
//   S<h>=<source>  open source h           x<h>         close source h
//   r<h>:<rop>     randomness op on h
//   P<h>=<hex>     parse pattern h         f<h>         free pattern h
//   E<h>=<src>     env h using source src  W<h>=<wordlist spec>  e<h> free env
//   g<p>,<e>:<mode>  generate from pattern p in environment e
//   D<h>=<n>       depth limit of env h   a<h>  structure of pattern h
//   I<turns>;<op>;...  operations that take turns
//   q<h>           pattern h is the shared one (of thr), not to be freed
#define NH 16
static passgen_pattern shared;
struct session {
    passgen_random *src[NH];
    passgen_pattern pat[NH];
    bool pv[NH];
    passgen_env env[NH];
    bool ev[NH];
};
static void ses_turns(struct session *s, char *spec);
static void ses_op(struct session *s, char *op) {
    int h = atoi(op + 1);
    char *eq = strpbrk(op, "=:");
    switch(op[0]) {
        case 'S':
            s->src[h] = src_open(eq + 1);
            out("%d", s->src[h] != NULL);
            break;
        case 'x':
            passgen_random_free(s->src[h]);
            s->src[h] = NULL;
            out("0");
            break;
        case 'r': rand_op(s->src[h], eq + 1); break;
        case 'P': {
            uint8_t *text = unhex(eq + 1, NULL);
            passgen_error e;
            int ret = passgen_parse(&s->pat[h], &e, (char *) text);
            free(text);
            s->pv[h] = ret == 0;
            if(ret != 0) passgen_error_free(&e);
            out("%d", ret);
            break;
        }
        case 'q':
            s->pat[h] = shared;
            out("0");
            break;
        case 'f':
            passgen_pattern_free(&s->pat[h]);
            s->pv[h] = false;
            out("0");
            break;
        case 'E':
            passgen_env_init(&s->env[h], s->src[atoi(eq + 1)]);
            s->ev[h] = true;
            out("0");
            break;
        case 'D':
            s->env[h].depth_limit = u64(eq + 1);
            out("0");
            break;
        case 'W':
            env_add(&s->env[h], eq + 1);
            out("0");
            break;
        case 'e':
            s->env[h].random = NULL; // sources are closed on their own
            passgen_env_free(&s->env[h]);
            s->ev[h] = false;
            out("0");
            break;
        case 'g': {
            int e = atoi(strchr(op, ',') + 1);
            gen_one(&s->pat[h], &s->env[e], strchr(op, ':') + 1);
            break;
        }
        case 'a': out_ast(&s->pat[h]); break;
        case 'I': ses_turns(s, op + 1); break;
        default: out("-99");
    }
}
// I<turns>;<op>;<op>...: the operations take turns, a generation giving its
// turn up after each character it has delivered. turns: digits, from 1.
static void task_main(void) {
    task *t = running;
    ses_op(t->ses, t->op);
    t->over = true;
    swapcontext(&t->ctx, &scheduler);
}
static void task_turn(task *t) {
    if(t->over) return;
    char *b = ob;
    size_t len = ob_len, cap = ob_cap;
    ob = t->ob, ob_len = t->ob_len, ob_cap = t->ob_cap;
    running = t;
    swapcontext(&scheduler, &t->ctx);
    running = NULL;
    t->ob = ob, t->ob_len = ob_len, t->ob_cap = ob_cap;
    ob = b, ob_len = len, ob_cap = cap;
}
static void ses_turns(struct session *s, char *spec) {
    task t[9] = {0};
    int n = 0;
    const size_t size = 4 << 20;
    char *turns = spec;
    for(char *c = spec; (c = strchr(c, ';'));) {
        *c++ = 0;
        t[n].op = c;
        t[n].ses = s;
        t[n].stack = malloc(size);
        getcontext(&t[n].ctx);
        t[n].ctx.uc_stack.ss_sp = t[n].stack;
        t[n].ctx.uc_stack.ss_size = size;
        makecontext(&t[n].ctx, task_main, 0);
        n++;
    }
    for(char *c = turns; *c; c++) task_turn(&t[*c - '1']);
    out("[");
    for(int k = 0; k < n; k++) {
        while(!t[k].over) task_turn(&t[k]);
        out("%s%s", k ? "," : "", t[k].ob);
        free(t[k].ob);
        free(t[k].stack);
    }
    out("]");
    for(int k = 1; k < n; k++) t[k].op[-1] = ';';
    if(n) t[0].op[-1] = ';';
}
static void ses_run(char **ops, int n) {
    struct session *s = calloc(1, sizeof(*s));
    out("[");
    for(int i = 0; i < n; i++) {
        if(i > 0) out(",");
        ses_op(s, ops[i]);
    }
    out("]");
    for(int h = 0; h < NH; h++) {
        if(s->ev[h]) { s->env[h].random = NULL; passgen_env_free(&s->env[h]); }
        if(s->pv[h]) passgen_pattern_free(&s->pat[h]);
        if(s->src[h]) passgen_random_free(s->src[h]);
    }
    free(s);
}

static void cmd_ses(void) {
    out("{\"r\":");
    ses_run(tokv + 1, tokc - 1);
    out("}");
}
// thr <rounds> <hex pattern> <op>... / <op>... / ...: each group of operations in a thread of
// its own, all at once, again and again. reports the results of the first
// round, and whether the others were the same.
typedef struct { char **ops; int n, rounds; char *res; int same; pthread_barrier_t *bar; } thr;
static void *thr_run(void *data) {
    thr *t = data;
    pthread_barrier_wait(t->bar);
    t->same = 1;
    for(int k = 0; k < t->rounds; k++) {
        ob_len = 0;
        ses_run(t->ops, t->n);
        out("%c", 0);
        if(!t->res) t->res = strdup(ob);
        else if(strcmp(t->res, ob) != 0) t->same = 0;
    }
    free(ob);
    ob = NULL;
    ob_cap = ob_len = 0;
    return NULL;
}
static void cmd_thr(void) {
    thr t[8] = {{0}};
    pthread_t id[8];
    int n = 0;
    uint8_t *ps = unhex(tokv[2], NULL);
    passgen_error e;
    if(passgen_parse(&shared, &e, (char *) ps) != 0) {
        out("{\"t\":[]}");
        return;
    }
    free(ps);
    for(int i = 3; i < tokc && n < 8; i++) {
        if(!t[n].ops) t[n].ops = tokv + i;
        if(strcmp(tokv[i], "/") == 0) n++;
        else t[n].n++;
    }
    if(t[n].ops) n++;
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, NULL, n);
    for(int i = 0; i < n; i++) {
        t[i].rounds = atoi(tokv[1]);
        t[i].bar = &bar;
        pthread_create(&id[i], NULL, thr_run, &t[i]);
    }
    out("{\"t\":[");
    for(int i = 0; i < n; i++) {
        pthread_join(id[i], NULL);
        out("%s{\"r\":%s,\"same\":%d}", i ? "," : "", t[i].res, t[i].same);
        free(t[i].res);
    }
    out("]}");
    passgen_pattern_free(&shared);
    pthread_barrier_destroy(&bar);
}

// --------------------------------------------------------------- ownership
// own <op>...: which of the memory and files that the library took is left
// after each operation. Only in builds with the address sanitizer.
#if defined(__SANITIZE_ADDRESS__)
#include <fcntl.h>
#include <passgen/context.h>
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#define NBLK (1 << 20)
static const volatile void *blk[NBLK]; // open addressing; (void *) 1: was in use
static long blk_live;
static bool own_rec;
static void blk_take(const volatile void *p, size_t n) {
    (void) n;
    if(!own_rec || !p) return;
    size_t at = ((uintptr_t) p >> 4) * 0x9e3779b1u % NBLK;
    while((uintptr_t) blk[at] > 1) at = (at + 1) % NBLK;
    blk[at] = p;
    blk_live++;
}
static void blk_give(const volatile void *p) {
    if(!p || !blk_live) return;
    size_t at = ((uintptr_t) p >> 4) * 0x9e3779b1u % NBLK;
    for(; blk[at]; at = (at + 1) % NBLK)
        if(blk[at] == p) {
            blk[at] = (void *) 1;
            blk_live--;
            return;
        }
}
static int fds_open(void) {
    int n = 0;
    for(int i = 0; i < 512; i++) n += fcntl(i, F_GETFD) != -1;
    return n;
}
struct owned {
    passgen_random *src[NH], here[NH];
    passgen_pattern *pat[NH], pat_here[NH];
    passgen_env env[NH];
    passgen_wordlist wl[NH];
    FILE *wf[NH];
    passgen_markov mk[NH];
    passgen_hashmap hm[NH];
    passgen_stack st[NH];
    size_t esz[NH];
    passgen_array ar[NH];
    passgen_error er[NH];
    passgen_context cx[NH];
    int cxn[NH][5];
    void *cxp[NH][8];
};
static int own_cb(void *data, uint32_t cp) {
    long *left = data;
    (void) cp;
    return left && (*left)-- == 0 ? 7 : 0;
}
static int own_free_cb(void *user, passgen_hashmap_entry *entry) {
    (void) user;
    free((void *) entry->key);
    free(entry->value);
    return 0;
}
static void *cx_malloc(void *s, size_t n) { ((int *) s)[0]++; return malloc(n); }
static void *cx_calloc(void *s, size_t k, size_t n) { ((int *) s)[1]++; return calloc(k, n); }
static void *cx_realloc(void *s, void *p, size_t n) { ((int *) s)[2]++; return realloc(p, n); }
static void cx_free(void *s, void *p) { ((int *) s)[3]++; free(p); }
static FILE *own_file(const uint8_t *d, size_t n) {
    if(!d) return fopen("/", "r");
    FILE *f = tmpfile();
    if(n) fwrite(d, 1, n, f);
    rewind(f);
    return f;
}
// the arguments, taken apart before anything is counted
static long own_op(struct owned *s, char *op) {
    int h = atoi(op + 1);
    char *eq = strchr(op, '=');
    char *f[4] = {eq ? eq + 1 : NULL};
    char text[1 << 12];
    size_t n = 0;
    if(eq) {
        snprintf(text, sizeof(text), "%s", eq + 1);
        f[0] = text;
        for(int i = 1; i < 4; i++) {
            f[i] = f[i - 1] ? strchr(f[i - 1], ':') : NULL;
            if(f[i]) *f[i]++ = 0;
        }
    }
    uint8_t *d = NULL;
    char *last = f[3] ? f[3] : f[2] ? f[2] : f[1] ? f[1] : f[0];
    bool bad = last && last[0] == '!';
    if(last && !bad) d = unhex(last, &n);
    long ok = 1;
    passgen_random *r = NULL;
    FILE *file = NULL;
    own_rec = true;
    switch(op[0]) {
        // sources: in new memory, in the caller's
        case 'S': ok = (s->src[h] = passgen_random_open(NULL, (char *) d)) != NULL; break;
        case 'O': ok = passgen_random_open(&s->here[h], (char *) d) != NULL; break;
        // ... from a file that the caller opened
        case 'Q': {
            file = tmpfile();
            own_rec = false;
            for(int i = 0; i < 1 << 18; i++) fputc(i ^ i >> 7, file);
            rewind(file);
            own_rec = true;
            ok = (s->src[h] = passgen_random_file_open(NULL, file)) != NULL;
            break;
        }
        case 'x': passgen_random_free(s->src[h]); break;
        case 'c': passgen_random_close(&s->here[h]); break;
        case 'r': // r<h>=<s or o>:<bytes>
        {
            own_rec = false;
            size_t k = u64(f[1]);
            uint8_t *b = malloc(k + 1);
            own_rec = true;
            passgen_random_read(f[0][0] == 's' ? s->src[h] : &s->here[h], b, k);
            passgen_random_u64_max(f[0][0] == 's' ? s->src[h] : &s->here[h], 1000);
            own_rec = false;
            free(b);
            break;
        }
        // patterns
        case 'P': {
            s->pat[h] = &s->pat_here[h];
            passgen_error e;
            int ret = passgen_parse(s->pat[h], &e, (char *) d);
            if(ret != 0) passgen_error_free(&e);
            ok = ret == 0;
            break;
        }
        case 'p': { // p<h>=<new or own>:<finish>:<text>
            passgen_parser parser;
            passgen_parser_init(&parser, f[0][0] == 'n' ? NULL : &s->pat_here[h]);
            uint32_t cps[1024];
            for(size_t i = 0; i < n && i < 1024; i++) cps[i] = d[i];
            int ret = passgen_parser_unicode(&parser, cps, n < 1024 ? n : 1024);
            if(ret == 0 && f[1][0] == 'f') ret = passgen_parse_finish(&parser);
            s->pat[h] = passgen_parser_free(&parser);
            ok = ret == 0;
            break;
        }
        case 'f':
            passgen_pattern_free(s->pat[h]);
            if(s->pat[h] != &s->pat_here[h]) free(s->pat[h]);
            break;
        // environments, on a source that stays the caller's or becomes theirs
        case 'E': passgen_env_init(&s->env[h], s->src[atoi(f[0])]); break;
        case 'T': passgen_env_init(&s->env[h], s->src[atoi(f[0])]); break;
        case 'W': { // W<h>=<name>:<level>:<data or !>
            own_rec = false;
            uint8_t *name = unhex(f[0], NULL);
            own_rec = true;
            char *key = strdup((char *) name);
            file = bad ? fopen("/", "r") : tmpfile();
            own_rec = false;
            free(name);
            if(!bad && n) fwrite(d, 1, n, file);
            rewind(file);
            own_rec = true;
            ok = passgen_env_wordlist_add(&s->env[h], key, file, u64(f[1])) == 0;
            break;
        }
        case 'e': // the source stays
            s->env[h].random = NULL;
            // fall through
        case 't': passgen_env_free(&s->env[h]); break;
        case 'g': { // g<p>=<e>:<mode>:<limit, or where to stop>
            int e = atoi(f[0]);
            double ent = 1;
            long k = atol(f[2]);
            own_rec = false;
            uint8_t *b = malloc(8 * (k < 0 ? 1 : k) + 8);
            own_rec = true;
            if(f[1][0] == 'c') ok = passgen_generate(s->pat[h], &s->env[e], &ent, k < 0 ? NULL : &k, own_cb) == 0;
            if(f[1][0] == 'u') ok = (long) passgen_generate_fill_unicode(s->pat[h], &s->env[e], &ent, (uint32_t *) b, k) >= 0;
            if(f[1][0] == 'b') ok = (long) passgen_generate_fill_utf8(s->pat[h], &s->env[e], &ent, b, k) >= 0;
            if(f[1][0] == 'j') ok = (long) passgen_generate_fill_json_utf8(s->pat[h], &s->env[e], &ent, b, k) >= 0;
            own_rec = false;
            free(b);
            break;
        }
        // wordlists on their own: L<h>=<l or i>:<closing>:<level>:<data or !>
        case 'L':
            own_rec = f[1][0] == '1';
            s->wf[h] = file = bad ? fopen("/", "r") : tmpfile();
            own_rec = false;
            if(!bad && n) fwrite(d, 1, n, file);
            rewind(file);
            own_rec = true;
            passgen_wordlist_init(&s->wl[h], file, u64(f[2]));
            if(f[1][0] != '1') s->wl[h].should_close_file = false;
            else s->wf[h] = NULL;
            if(f[0][0] == 'l') {
                ok = passgen_wordlist_parse(&s->wl[h]) == 0;
                if(ok) ok = passgen_wordlist_parse_markov(&s->wl[h]) == 0;
            }
            break;
        case 'l': ok = passgen_wordlist_parse(&s->wl[h]) == 0; break;
        case 'm': ok = passgen_wordlist_parse_markov(&s->wl[h]) == 0; break;
        case 'k':
            passgen_wordlist_free(&s->wl[h]);
            own_rec = false;
            if(s->wf[h]) fclose(s->wf[h]);
            s->wf[h] = NULL;
            break;
        // Markov chains: M<h>=<level>  a<h>=<word>  z<h>
        case 'M': passgen_markov_init(&s->mk[h], u64(f[0])); break;
        case 'a': {
            own_rec = false;
            uint32_t w[256];
            for(size_t i = 0; i < n && i < 256; i++) w[i] = d[i] * 3 + (d[i] >> 4) * 1000;
            own_rec = true;
            passgen_markov_add(&s->mk[h], w, n < 256 ? n : 256, 1);
            break;
        }
        case 'z': passgen_markov_free(&s->mk[h]); break;
        // hash maps: H<h>  i<h>=<key> (the caller releases what was there)  d<h>=<key>  j<h>
        case 'H': passgen_hashmap_init(&s->hm[h], NULL); break;
        case 'i': {
            char *key = strdup((char *) d);
            passgen_hashmap_entry e = passgen_hashmap_insert(&s->hm[h], key, malloc(3));
            if(e.key) own_free_cb(NULL, &e);
            break;
        }
        case 'd': {
            passgen_hashmap_entry e = passgen_hashmap_remove(&s->hm[h], d);
            ok = e.key != NULL;
            if(e.key) own_free_cb(NULL, &e);
            break;
        }
        case 'y': ok = passgen_hashmap_lookup(&s->hm[h], d) != NULL; break;
        case 'j':
            passgen_hashmap_foreach(&s->hm[h], NULL, f[0] && f[0][0] == '0' ? passgen_hashmap_entry_free : own_free_cb);
            passgen_hashmap_free(&s->hm[h]);
            break;
        // stacks: K<h>=<element size>  u<h>=<pushes>  o<h>=<pops>  v<h>
        case 'K': passgen_stack_init(&s->st[h], s->esz[h] = u64(f[0])); break;
        case 'u': {
            static uint8_t el[1 << 13];
            for(uint64_t k = u64(f[0]); k; k--) passgen_stack_push(&s->st[h], k & 1 ? el : NULL);
            break;
        }
        case 'o': for(uint64_t k = u64(f[0]); k; k--) ok = passgen_stack_pop(&s->st[h], NULL) != NULL; break;
        case 'v': passgen_stack_free(&s->st[h]); break;
        // arrays: A<h>=<capacity>  b<h>=<pushes>  n<h>=<pops>  w<h>
        case 'A': passgen_array_init(&s->ar[h], u64(f[0])); break;
        case 'b': for(uint64_t k = u64(f[0]); k; k--) passgen_array_push(&s->ar[h], s); break;
        case 'n': for(uint64_t k = u64(f[0]); k; k--) passgen_array_pop(&s->ar[h]); break;
        case 'w': passgen_array_free(&s->ar[h]); break;
        // errors: R<h>=<causes>  s<h>
        case 'R':
            passgen_error_init(&s->er[h], "message");
            for(uint64_t k = u64(f[0]); k; k--) passgen_error_cause_add(&s->er[h], &s->er[0]);
            break;
        case 's': passgen_error_free(&s->er[h]); break;
#ifdef PASSGEN_MEMORY
        // contexts: C<h>=<which of the functions are its own>  q<h>=<what>:<slot>
        case 'C': {
            int set = atoi(f[0]);
            passgen_context_init(&s->cx[h]);
            memset(s->cxn[h], 0, sizeof(s->cxn[h]));
            passgen_context_set_alloc_state(&s->cx[h], s->cxn[h]);
            if(set & 1) passgen_context_set_malloc(&s->cx[h], cx_malloc);
            if(set & 2) passgen_context_set_calloc(&s->cx[h], cx_calloc);
            if(set & 4) passgen_context_set_realloc(&s->cx[h], cx_realloc);
            if(set & 8) passgen_context_set_free(&s->cx[h], cx_free);
            ok = 0;
            break;
        }
        case 'q': {
            int k = atoi(f[1]);
            void **p = &s->cxp[h][k];
            uint8_t sum = 0;
            if(f[0][0] == 'm') *p = passgen_malloc(&s->cx[h], 24), memset(*p, 7, 24);
            if(f[0][0] == 'c') {
                *p = passgen_calloc(&s->cx[h], 3, 8);
                for(int i = 0; i < 24; i++) sum |= ((uint8_t *) *p)[i];
                memset(*p, 7, 24);
            }
            if(f[0][0] == 'r') {
                bool had = *p;
                *p = passgen_realloc(&s->cx[h], *p, 24 + 8 * k);
                for(int i = 0; had && i < 24; i++) sum |= ((uint8_t *) *p)[i] != 7;
                memset(*p, 7, 24 + 8 * k);
            }
            if(f[0][0] == 'f') passgen_free(&s->cx[h], *p), *p = NULL;
            // how often each of its functions was used, one digit each
            int *c = s->cxn[h];
            ok = sum ? -1 : c[0] + 100 * c[1] + 10000 * c[2] + 1000000 * c[3];
            break;
        }
#else
        case 'C':
        case 'q': ok = -2; break;
#endif
        default: ok = -99;
    }
    own_rec = false;
    (void) r;
    free(d);
    return ok;
}
static void cmd_own(void) {
    static bool hooked;
    if(!hooked) __sanitizer_install_malloc_and_free_hooks(blk_take, blk_give);
    hooked = true;
    memset(blk, 0, sizeof(blk));
    blk_live = 0;
    struct owned *s = calloc(1, sizeof(*s));
    int fds = fds_open();
    out("{\"r\":[");
    for(int i = 1; i < tokc; i++) {
        long ok = own_op(s, tokv[i]);
        out("%s{\"ok\":%ld,\"m\":%ld,\"f\":%d}", i > 1 ? "," : "", ok, blk_live, fds_open() - fds);
    }
    out("]}");
    free(s);
}
#endif

int main(void) {
    char *line = NULL;
    size_t cap = 0;
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    struct rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    while(getline(&line, &cap, stdin) > 0) {
        split(line);
        if(!tokc) continue;
        ob_len = 0;
        alarm(20);
        const char *c = tokv[0];
        if(!strcmp(c, "parse")) cmd_parse();
        else if(!strcmp(c, "parsen")) cmd_parsen();
        else if(!strcmp(c, "parseu")) cmd_parseu();
        else if(!strcmp(c, "parset")) cmd_parset();
        else if(!strcmp(c, "tok")) cmd_tok();
        else if(!strcmp(c, "udec")) cmd_udec();
        else if(!strcmp(c, "uenc")) cmd_uenc();
        else if(!strcmp(c, "uencr")) cmd_uencr();
        else if(!strcmp(c, "uenc1")) cmd_uenc1();
        else if(!strcmp(c, "gen")) cmd_gen();
        else if(!strcmp(c, "rand")) cmd_rand();
        else if(!strcmp(c, "fault") || !strcmp(c, "sysfault")) cmd_fault();
        else if(!strcmp(c, "hm")) cmd_hm();
        else if(!strcmp(c, "hb")) cmd_hb();
        else if(!strcmp(c, "st")) cmd_st();
        else if(!strcmp(c, "ar")) cmd_ar();
        else if(!strcmp(c, "wl")) cmd_wl();
        else if(!strcmp(c, "mk")) cmd_mk();
        else if(!strcmp(c, "ses")) cmd_ses();
        else if(!strcmp(c, "thr")) cmd_thr();
#if defined(__SANITIZE_ADDRESS__)
        else if(!strcmp(c, "own")) cmd_own();
#endif
#ifdef WRAP_FREE
        else if(!strcmp(c, "wipe")) cmd_wipe();
        else if(!strcmp(c, "wipes")) cmd_wipes();
#endif
        else out("{\"unknown\":1}");
        alarm(0);
        out("\n");
        fwrite(ob, 1, ob_len, stdout);
        fflush(stdout);
    }
    return 0;
}
