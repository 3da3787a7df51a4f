/*
** The host around a real Lua 5.1.5 machine: everything a program can observe
** or be disturbed by goes through this file. One call of vm_run is one run of
** one simulated machine; its result is the list of host events, one per line.
** Compiled once per LFIELDS_PER_FLUSH.
*/
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define LUA_CORE
#include "lua.h"
#include "lauxlib.h"
#include "ldebug.h"
#include "lfunc.h"
#include "lobject.h"
#include "lstate.h"
#include "ldo.h"
#include "lundump.h"

#define EXPORT __attribute__((visibility("default")))

struct host_fault {
  uint64_t task; /* hash of the task's name */
  uint32_t index; /* n-th host call of that task */
  int32_t kind; /* 1 string error, 2 number error, 3 call an argument back, 4 full collection, 5 table error */
};

struct scenario {
  uint64_t seed;
  const uint32_t *schedule;
  uint64_t schedule_len;
  const struct host_fault *faults;
  uint64_t fault_count;
  uint64_t kill_task, kill_at; /* that task dies before its n-th instruction */
  uint64_t memory_task, fail_at, fail_count; /* its n-th and following allocations fail */
  uint64_t budget; /* instructions of all tasks together */
  uint32_t gc_mode, gc_period;
  uint32_t full_messages;
  uint32_t lines;
  uint32_t variables; /* of the calling function: 1 their names, 2 and values */
  uint32_t nesting; /* calls nested deeper than that (in C) exceed the budget too */
};

struct result {
  char *events;
  uint64_t len;
  uint64_t instructions, allocations, collections, host_calls, switches;
  uint64_t killed, memory_failures, faults_fired, out_of_budget;
  uint64_t refused_tasks;
};

static uint64_t mix(uint64_t x) {
  x ^= x >> 30;
  x *= 0xbf58476d1ce4e5b9ULL;
  x ^= x >> 27;
  x *= 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

static uint64_t hash_name(const char *s) {
  uint64_t h = 0xcbf29ce484222325ULL;
  for (; *s; s++) h = (h ^ (uint8_t)*s) * 0x100000001b3ULL;
  return h;
}

#define MAX_TASKS 64
struct task {
  lua_State *co;
  char name[48];
  uint64_t hash;
  uint32_t calls; /* host calls so far */
  uint32_t children;
  uint64_t instructions, allocations;
  int nest; /* host functions on the stack that cannot be yielded across */
  int args; /* arguments of the next resume */
  int dead, killed;
};

static struct task tasks[MAX_TASKS];
static int task_count;
static struct task *cur;
static const struct scenario *scn;
static struct result *res;
static char *buf;
static size_t buf_len, buf_cap;
static char kill_marker;

static void put(const char *s, size_t n) {
  if (buf_len + n > buf_cap) {
    buf_cap = (buf_len + n) * 2 + 4096;
    buf = realloc(buf, buf_cap);
    if (!buf) abort();
  }
  memcpy(buf + buf_len, s, n);
  buf_len += n;
}

static void putf(const char *fmt, ...) {
  char tmp[256];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(tmp, sizeof tmp, fmt, ap);
  va_end(ap);
  put(tmp, (size_t)n < sizeof tmp ? (size_t)n : sizeof tmp - 1);
}

static void put_string(const char *s, size_t n) {
  put("\"", 1);
  for (size_t k = 0; k < n; k++) {
    unsigned char c = s[k];
    if (c < 32 || c > 126 || c == '"' || c == '\\') putf("\\%02x", c);
    else put((const char *)&c, 1);
  }
  put("\"", 1);
}

static void put_number(double d) {
  if (d != d) put("nan", 3);
  else putf("%.17g", d);
}

/* ------------------------------------------------------------ values */

/* Order of the keys that host functions enumerate: numbers, strings, booleans.
   < 0, 0, > 0; `a` and `b` are absolute. */
static int key_class(lua_State *L, int i) {
  switch (lua_type(L, i)) {
    case LUA_TNUMBER: return 1;
    case LUA_TSTRING: return 2;
    case LUA_TBOOLEAN: return 3;
    default: return 0;
  }
}

static int key_order(lua_State *L, int a, int b) {
  int ca = key_class(L, a), cb = key_class(L, b);
  if (ca != cb) return ca - cb;
  if (ca == 1) {
    double x = lua_tonumber(L, a), y = lua_tonumber(L, b);
    return x < y ? -1 : x > y;
  }
  if (ca == 3) return lua_toboolean(L, a) - lua_toboolean(L, b);
  size_t n, m;
  const char *s = lua_tolstring(L, a, &n), *t = lua_tolstring(L, b, &m);
  int r = memcmp(s, t, n < m ? n : m);
  return r ? r : (n > m) - (n < m);
}

/* Pushes the key after the one at `key` (0: the first) and its value; returns
   0 and pushes nothing at the end. Keys without an order are left out. */
static int next_key(lua_State *L, int t, int key) {
  lua_checkstack(L, 10);
  int top = lua_gettop(L);
  lua_pushnil(L); /* best */
  lua_pushnil(L);
  while (lua_next(L, t)) {
    lua_pop(L, 1);
    int k = lua_gettop(L);
    if (!key_class(L, k)) continue;
    if (key && key_order(L, k, key) <= 0) continue;
    if (key_class(L, top + 1) && key_order(L, k, top + 1) >= 0) continue;
    lua_pushvalue(L, k);
    lua_replace(L, top + 1);
  }
  if (!key_class(L, top + 1)) {
    lua_settop(L, top);
    return 0;
  }
  lua_pushvalue(L, top + 1);
  lua_rawget(L, t);
  return 1;
}

/* "nil", "12", "error:3: attempt to call" ...; depth-limited for tables */
static void put_value(lua_State *L, int i, int depth) {
  if (!lua_checkstack(L, 8)) {
    put("?", 1);
    return;
  }
  switch (lua_type(L, i)) {
    case LUA_TNIL: put("nil", 3); break;
    case LUA_TBOOLEAN: putf(lua_toboolean(L, i) ? "true" : "false"); break;
    case LUA_TNUMBER: put_number(lua_tonumber(L, i)); break;
    case LUA_TSTRING: {
      size_t n;
      const char *s = lua_tolstring(L, i, &n);
      put_string(s, n);
      break;
    }
    case LUA_TTABLE: {
      put("{", 1);
      if (depth > 3) put("..", 2);
      else {
        int t = i, top = lua_gettop(L), have = 0, count = 0;
        double expect = 1;
        while (next_key(L, t, have ? top + 1 : 0)) {
          int k = lua_gettop(L) - 1;
          if (count++) put(",", 1);
          if (lua_type(L, k) == LUA_TNUMBER && lua_tonumber(L, k) == expect) expect++;
          else {
            put("[", 1);
            put_value(L, k, 4);
            put("]=", 2);
          }
          put_value(L, k + 1, depth + 1);
          lua_pop(L, 1);
          if (have) lua_replace(L, top + 1);
          have = 1;
          if (count > 2000) break;
        }
        lua_settop(L, top);
      }
      put("}", 1);
      break;
    }
    case LUA_TFUNCTION: put("function", 8); break;
    case LUA_TLIGHTUSERDATA: put("killed", 6); break;
    default: put("other", 5);
  }
}

/* ------------------------------------------------------------ memory */

static int in_task;

static void *allocate(void *ud, void *p, size_t o, size_t n) {
  (void)ud;
  if (n == 0) {
    free(p);
    return NULL;
  }
  if (n > o) {
    res->allocations++;
    if (in_task) {
      cur->allocations++;
      if (scn->fail_at && cur->hash == scn->memory_task && cur->allocations >= scn->fail_at &&
          cur->allocations < scn->fail_at + scn->fail_count) {
        res->memory_failures++;
        return NULL;
      }
    }
    if (n > (64u << 20)) return NULL;
    /* Old contents never survive in place. */
    void *q = malloc(n);
    if (!q) abort();
    memset(q, 0xA5, n);
    memcpy(q, p, o);
    if (p) {
      memset(p, 0x5A, o);
      free(p);
    }
    return q;
  }
  return realloc(p, n);
}

/* ------------------------------------------------------------ instructions */

static void collect(lua_State *L) {
  /* Deep stacks make collections slow. */
  if (res->collections > 300) return;
  res->collections++;
  lua_gc(L, LUA_GCCOLLECT, 0);
}

static int hook_step;

/* How deep calls may be nested is a limit of each machine: an original that
   gets anywhere near it is given up. */
static void too_deep(lua_State *L) {
  if (scn->nesting && (L->nCcalls > scn->nesting || L->ci - L->base_ci > 50 * scn->nesting)) res->out_of_budget = 1;
}

static void hook(lua_State *L, lua_Debug *ar) {
  (void)ar;
  res->instructions += hook_step;
  cur->instructions += hook_step;
  /* A full collection at the next point where the machine itself may collect:
     in the hook the frame of an instruction with open results is not marked. */
  if (scn->gc_mode == 3 && cur->instructions % (scn->gc_period ? scn->gc_period : 1) == 0 && res->collections < 2000) {
    res->collections++;
    G(L)->GCthreshold = 0;
  }
  if (res->instructions > scn->budget) res->out_of_budget = 1;
  too_deep(L);
  int kill = scn->kill_at && cur->hash == scn->kill_task && cur->instructions >= scn->kill_at;
  if (kill || res->out_of_budget || cur->killed) {
    if (kill && !cur->killed) res->killed++;
    cur->killed = 1;
    lua_pushlightuserdata(L, &kill_marker);
    lua_error(L);
  }
}

/* ------------------------------------------------------------ host functions */

static int here(lua_State *L) {
  lua_Debug ar;
  if (!scn->lines || !lua_getstack(L, 1, &ar)) return -1;
  lua_getinfo(L, "l", &ar);
  return ar.currentline;
}

/* The local variables that a debugger sees in the calling function. */
static void put_variables(lua_State *L) {
  lua_Debug ar;
  if (!scn->variables || !lua_getstack(L, 1, &ar) || !ar.i_ci) return;
  CallInfo *ci = L->base_ci + ar.i_ci;
  if (!isLua(ci)) return;
  const Proto *p = ci_func(ci)->l.p;
  int pc = pcRel(ci->savedpc, p);
  const char *name;
  for (int n = 1; (name = luaF_getlocalname(p, n, pc)) != NULL; n++) {
    putf(" %.60s", name);
    if (scn->variables < 2) continue;
    const TValue *v = ci->base + (n - 1);
    put("=", 1);
    switch (ttype(v)) {
      case LUA_TNIL: put("nil", 3); break;
      case LUA_TBOOLEAN: putf(bvalue(v) ? "true" : "false"); break;
      case LUA_TNUMBER: put_number(nvalue(v)); break;
      case LUA_TSTRING: put_string(svalue(v), tsvalue(v)->len > 20 ? 20 : tsvalue(v)->len); break;
      default: putf("type%d", ttype(v));
    }
  }
}

static void event(lua_State *L, const char *name, int from) {
  int top = lua_gettop(L);
  putf("%s %d %s(", cur->name, here(L), name);
  for (int k = from; k <= top; k++) {
    if (k > from) put(", ", 2);
    put_value(L, k, 0);
  }
  put(")", 1);
  put_variables(L);
  put("\n", 1);
}

static void push_derived(lua_State *L, uint64_t h) {
  switch (h & 7) {
    case 0: lua_pushnil(L); break;
    case 1: lua_pushboolean(L, (h >> 3) & 1); break;
    case 2: lua_pushnumber(L, (double)((h >> 3) % 100) / 4); break;
    case 3: {
      char tmp[8];
      int n = snprintf(tmp, sizeof tmp, "h%d", (int)((h >> 3) % 50));
      lua_pushlstring(L, tmp, n);
      break;
    }
    default: lua_pushnumber(L, (double)((h >> 3) % 12)); break;
  }
}

static int derived_results(lua_State *L, uint64_t h) {
  int n = (int)(h % 5);
  lua_checkstack(L, n + 2);
  for (int k = 0; k < n; k++) push_derived(L, mix(h + 77 + k));
  return n;
}

static void call_back(lua_State *L, uint64_t h, int nresults) {
  cur->nest++;
  int n = derived_results(L, mix(h ^ 5));
  lua_call(L, n, nresults);
  cur->nest--;
}

/* Counts the host call and fires its faults; returns its hash. */
static uint64_t host_call(lua_State *L) {
  too_deep(L);
  uint32_t k = cur->calls++;
  uint64_t h = mix(scn->seed ^ mix(cur->hash + k));
  res->host_calls++;
  if (scn->gc_mode == 2) collect(L);
  for (uint64_t f = 0; f < scn->fault_count; f++) {
    const struct host_fault *x = &scn->faults[f];
    if (x->task != cur->hash || x->index != k) continue;
    res->faults_fired++;
    switch (x->kind) {
      case 1: lua_pushfstring(L, "host%d", (int)k); lua_error(L); break;
      case 2: lua_pushnumber(L, k); lua_error(L); break;
      case 5: lua_newtable(L); lua_pushnumber(L, k); lua_rawseti(L, -2, 1); lua_error(L); break;
      case 3:
        for (int a = 1; a <= lua_gettop(L); a++)
          if (lua_type(L, a) == LUA_TFUNCTION) {
            lua_checkstack(L, 10);
            lua_pushvalue(L, a);
            call_back(L, h, 0);
            break;
          }
        break;
      case 4: collect(L); break;
    }
  }
  return h;
}

static int h_emit(lua_State *L) {
  event(L, "emit", 1);
  host_call(L);
  return 0;
}

static int h_ask(lua_State *L) {
  event(L, "ask", 1);
  return derived_results(L, host_call(L));
}

static int h_yield(lua_State *L) {
  event(L, "yield", 1);
  uint64_t h = host_call(L);
  if (cur->nest) return derived_results(L, h);
  lua_settop(L, 0);
  return lua_yield(L, 0);
}

static int h_call(lua_State *L) {
  luaL_checkany(L, 1);
  event(L, "call", 2);
  host_call(L);
  cur->nest++;
  lua_call(L, lua_gettop(L) - 1, LUA_MULTRET);
  cur->nest--;
  return lua_gettop(L);
}

/* Runtime errors as "file:line: first words" so that two machines agree. */
static void normalise(lua_State *L, int i) {
  if (lua_type(L, i) != LUA_TSTRING || scn->full_messages) return;
  if (!lua_checkstack(L, 4)) return;
  const char *s = lua_tostring(L, i);
  static const char *starts[] = {"attempt to ", "bad argument #", "calling '"};
  const char *m = NULL;
  for (size_t k = 0; !m && k < sizeof starts / sizeof *starts; k++) m = strstr(s, starts[k]);
  if (!m) return;
  static const char *kinds[] = {"attempt to call", "attempt to index", "attempt to concatenate", "attempt to compare",
    "attempt to perform arithmetic", "attempt to yield", "bad argument #", "calling '"};
  for (size_t k = 0; k < sizeof kinds / sizeof *kinds; k++)
    if (!strncmp(m, kinds[k], strlen(kinds[k]))) {
      if (scn->lines) {
        lua_pushlstring(L, s, m - s);
        lua_pushstring(L, kinds[k]);
        lua_concat(L, 2);
      } else
        lua_pushstring(L, kinds[k]);
      lua_replace(L, i);
      return;
    }
}

static int h_pcall(lua_State *L) {
  luaL_checkany(L, 1);
  event(L, "pcall", 2);
  host_call(L);
  int nest = cur->nest;
  cur->nest++;
  int status = lua_pcall(L, lua_gettop(L) - 1, LUA_MULTRET, 0);
  cur->nest = nest;
  if (cur->killed) {
    lua_pushlightuserdata(L, &kill_marker);
    lua_error(L);
  }
  if (status == LUA_ERRMEM) {
    /* A starved task does not get to handle it. */
    cur->killed = 1;
    lua_error(L);
  }
  lua_checkstack(L, 4);
  if (status) normalise(L, lua_gettop(L));
  lua_pushboolean(L, status == 0);
  lua_insert(L, 1);
  return lua_gettop(L);
}

static int h_error(lua_State *L) {
  lua_settop(L, 1);
  return lua_error(L);
}

static int iterate(lua_State *L) {
  event(L, "iterate", 1);
  uint64_t h = host_call(L);
  double s = lua_tonumber(L, 1), c = lua_tonumber(L, 2);
  if (c + 1 > s) return 0;
  lua_pushnumber(L, c + 1);
  push_derived(L, h);
  return 2;
}

static int h_iter(lua_State *L) {
  event(L, "iter", 1);
  host_call(L);
  double n = lua_tonumber(L, 1);
  lua_pushcfunction(L, iterate);
  lua_pushnumber(L, n > 6 ? 6 : n);
  lua_pushnumber(L, 0);
  return 3;
}

static int h_next(lua_State *L) {
  luaL_checktype(L, 1, LUA_TTABLE);
  lua_settop(L, 2);
  if (next_key(L, 1, lua_isnil(L, 2) ? 0 : 2)) return 2;
  lua_pushnil(L);
  return 1;
}

static int h_type(lua_State *L) {
  luaL_checkany(L, 1);
  lua_pushstring(L, luaL_typename(L, 1));
  return 1;
}

static int h_setmetatable(lua_State *L) {
  luaL_checktype(L, 1, LUA_TTABLE);
  luaL_checktype(L, 2, LUA_TTABLE);
  lua_settop(L, 2);
  lua_setmetatable(L, 1);
  return 1;
}

static int h_setfenv(lua_State *L) {
  luaL_checktype(L, 1, LUA_TFUNCTION);
  luaL_checktype(L, 2, LUA_TTABLE);
  lua_settop(L, 2);
  lua_setfenv(L, 1);
  return 1;
}

static int h_unpack(lua_State *L) {
  luaL_checktype(L, 1, LUA_TTABLE);
  int n = (int)lua_tonumber(L, 2);
  if (n < 0) n = 0;
  if (n > 20) n = 20;
  lua_settop(L, 1);
  lua_checkstack(L, n + 2);
  for (int k = 1; k <= n; k++) lua_rawgeti(L, 1, k);
  return n;
}

static int h_spawn(lua_State *L) {
  luaL_checktype(L, 1, LUA_TFUNCTION);
  event(L, "spawn", 2);
  host_call(L);
  if (task_count >= MAX_TASKS) {
    res->refused_tasks++;
    return 0;
  }
  luaL_checkstack(L, lua_gettop(L) + 5, "spawn");
  lua_State *co = lua_newthread(L);
  lua_pushvalue(L, -1);
  int anchor = luaL_ref(L, LUA_REGISTRYINDEX);
  (void)anchor;
  int n = lua_gettop(L) - 2; /* arguments after the function */
  luaL_checkstack(co, n + 2, "spawn");
  for (int k = 1; k <= n + 1; k++) lua_pushvalue(L, k);
  lua_xmove(L, co, n + 1);
  struct task *t = &tasks[task_count];
  memset(t, 0, sizeof *t);
  if (strlen(cur->name) > 36) {
    res->refused_tasks++;
    return 0;
  }
  snprintf(t->name, sizeof t->name, "%s.%u", cur->name, cur->children++);
  t->hash = hash_name(t->name);
  t->co = co;
  t->args = n;
  lua_sethook(co, lua_gethook(L), LUA_MASKCOUNT, hook_step);
  task_count++;
  return 0;
}

static const luaL_Reg functions[] = {
  {"emit", h_emit}, {"ask", h_ask}, {"yield", h_yield}, {"call", h_call}, {"pcall", h_pcall}, {"error", h_error},
  {"iter", h_iter}, {"next", h_next}, {"type", h_type}, {"setmetatable", h_setmetatable}, {"unpack", h_unpack}, {"setfenv", h_setfenv},
  {"spawn", h_spawn}, {NULL, NULL}};

/* ------------------------------------------------------------ machine */

struct chunk {
  const char *data;
  uint64_t len;
};

static const char *read_chunk(lua_State *L, void *ud, size_t *n) {
  struct chunk *c = ud;
  (void)L;
  *n = c->len;
  c->len = 0;
  return *n ? c->data : NULL;
}

EXPORT void vm_run(const struct scenario *s, const struct chunk *chunks, uint64_t count, struct result *r) {
  scn = s;
  res = r;
  memset(r, 0, sizeof *r);
  buf = NULL;
  buf_len = buf_cap = 0;
  task_count = 0;
  in_task = 0;
  hook_step = (s->kill_at || s->gc_mode == 3) ? 1 : 100;
  lua_State *L = lua_newstate(allocate, NULL);
  if (!L) abort();
  for (const luaL_Reg *f = functions; f->name; f++) {
    lua_pushcfunction(L, f->func);
    lua_setglobal(L, f->name);
  }
  if (s->gc_mode == 1) lua_gc(L, LUA_GCSTOP, 0);
  if (s->gc_mode == 3) lua_gc(L, LUA_GCSETSTEPMUL, 0); /* no limit: one step is a cycle */
  if (s->gc_mode == 4) {
    lua_gc(L, LUA_GCSETPAUSE, 0);
    lua_gc(L, LUA_GCSETSTEPMUL, s->gc_period);
  }
  for (uint64_t k = 0; k < count; k++) {
    struct chunk c = chunks[k];
    struct task *t = &tasks[task_count];
    memset(t, 0, sizeof *t);
    snprintf(t->name, sizeof t->name, "%c", (char)('A' + k));
    t->hash = hash_name(t->name);
    t->co = lua_newthread(L);
    luaL_ref(L, LUA_REGISTRYINDEX);
    if (lua_load(t->co, read_chunk, &c, "=program")) {
      putf("%s load failed: ", t->name);
      put_value(t->co, lua_gettop(t->co), 0);
      put("\n", 1);
      continue;
    }
    lua_sethook(t->co, hook, LUA_MASKCOUNT, hook_step);
    task_count++;
  }
  uint64_t at = 0;
  for (;;) {
    /* Every program has its own slots, so that the order of its tasks does not
       depend on how long another program lives. */
    int ready[MAX_TASKS], n = 0, alive = 0;
    uint32_t choice = at < s->schedule_len ? s->schedule[at] : (uint32_t)at;
    char family = 'A' + choice % count;
    for (int k = 0; k < task_count; k++)
      if (!tasks[k].dead) {
        alive = 1;
        if (tasks[k].name[0] == family) ready[n++] = k;
      }
    if (!alive || r->out_of_budget) break;
    at++;
    if (!n) continue;
    r->switches++;
    cur = &tasks[ready[choice / count % n]];
    lua_State *co = cur->co;
    in_task = 1;
    int status = lua_resume(co, cur->args);
    in_task = 0;
    if (status == LUA_YIELD) {
      cur->args = derived_results(co, mix(s->seed ^ mix(cur->hash + cur->calls + 1000)));
      continue;
    }
    cur->dead = 1;
    if (cur->killed) {
      putf("%s killed\n", cur->name);
      continue;
    }
    int top = lua_gettop(co);
    if (status) {
      if (status == LUA_ERRMEM) putf("%s starved\n", cur->name);
      else {
        normalise(co, top);
        putf("%s failed: ", cur->name);
        put_value(co, top, 0);
        put("\n", 1);
      }
    } else {
      putf("%s returned(", cur->name);
      for (int k = 1; k <= top; k++) {
        if (k > 1) put(", ", 2);
        put_value(co, k, 0);
      }
      put(")\n", 2);
    }
  }
  if (s->gc_mode != 1) {
    collect(L);
    collect(L);
  }
  lua_close(L);
  r->events = buf;
  r->len = buf_len;
}

static int write_chunk(lua_State *L, const void *p, size_t n, void *ud) {
  (void)L;
  (void)ud;
  put(p, n);
  return 0;
}

static void *plain_allocate(void *ud, void *p, size_t o, size_t n) {
  (void)ud;
  (void)o;
  if (n == 0) {
    free(p);
    return NULL;
  }
  return realloc(p, n);
}

/* Compiles a source text with this machine's own compiler. On failure `ok` is
   0 and the text of the error is returned. */
EXPORT char *vm_compile(const char *source, uint64_t n, const char *name, int strip, uint64_t *len, int *ok) {
  lua_State *L = lua_newstate(plain_allocate, NULL);
  if (!L) abort();
  buf = NULL;
  buf_len = buf_cap = 0;
  struct chunk c = {source, n};
  *ok = !lua_load(L, read_chunk, &c, name);
  if (*ok) luaU_dump(L, clvalue(L->top - 1)->l.p, write_chunk, NULL, strip);
  else put(lua_tostring(L, -1), strlen(lua_tostring(L, -1)));
  lua_close(L);
  *len = buf_len;
  return buf;
}

EXPORT int vm_flush(void) { return LFIELDS_PER_FLUSH; }
