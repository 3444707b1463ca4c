#include "gen.h"
#include <ctype.h>
#include <stdio.h>
#include <string.h>
#include <algorithm>
#include <set>

// ---------------------------------------------------------------- instruction tables
// Written from the manufacturers' opcode charts.
namespace {

typedef std::vector<uint8_t> B;

void add(std::vector<Ins>& t, const char* mn, const std::string& pat, int kind, B pre, B alt = {}) {
  t.push_back(Ins{mn, pat, kind, pre, alt});
}

void tab6502(std::vector<Ins>& t, int cpu) {
  bool c02 = cpu == 6;
  struct { const char* n; int c; } br[] = {{"bpl", 0x10}, {"bmi", 0x30}, {"bvc", 0x50}, {"bvs", 0x70},
                                           {"bcc", 0x90}, {"bcs", 0xb0}, {"bne", 0xd0}, {"beq", 0xf0},
                                           {"bhi", 0xb0}, {"blo", 0x90}, {"bgt", 0x10}, {"ble", 0x30}},
    im[] = {{"brk", 0x00}, {"php", 0x08}, {"clc", 0x18}, {"plp", 0x28}, {"sec", 0x38}, {"rti", 0x40}, {"pha", 0x48},
            {"cli", 0x58}, {"rts", 0x60}, {"pla", 0x68}, {"sei", 0x78}, {"dey", 0x88}, {"txa", 0x8a}, {"tya", 0x98},
            {"txs", 0x9a}, {"tay", 0xa8}, {"tax", 0xaa}, {"clv", 0xb8}, {"tsx", 0xba}, {"iny", 0xc8}, {"dex", 0xca},
            {"cld", 0xd8}, {"inx", 0xe8}, {"nop", 0xea}, {"sed", 0xf8}},
    alu[] = {{"ora", 0x00}, {"and", 0x20}, {"eor", 0x40}, {"adc", 0x60}, {"sta", 0x80}, {"lda", 0xa0}, {"cmp", 0xc0},
             {"sbc", 0xe0}},
    sh[] = {{"asl", 0x00}, {"rol", 0x20}, {"lsr", 0x40}, {"ror", 0x60}};
  for (auto& x : br) add(t, x.n, "%", IK_REL, {(uint8_t)x.c});
  for (auto& x : im) add(t, x.n, "", IK_FIX, {(uint8_t)x.c});
  for (auto& x : alu) {
    uint8_t c = x.c;
    add(t, x.n, "(%,x)", IK_ZP, {(uint8_t)(c + 0x01)});
    add(t, x.n, "%", IK_ZA, {(uint8_t)(c + 0x05)}, {(uint8_t)(c + 0x0d)});
    if (c != 0x80) add(t, x.n, "#%", IK_N8, {(uint8_t)(c + 0x09)});
    add(t, x.n, "(%),y", IK_ZP, {(uint8_t)(c + 0x11)});
    add(t, x.n, "%,x", IK_ZA, {(uint8_t)(c + 0x15)}, {(uint8_t)(c + 0x1d)});
    add(t, x.n, "%,y", IK_N16, {(uint8_t)(c + 0x19)});
    add(t, x.n, "@%,x", IK_ZP, {(uint8_t)(c + 0x01)});
    add(t, x.n, "@%,y", IK_ZP, {(uint8_t)(c + 0x11)});
    if (c02) add(t, x.n, "(%)", IK_ZP, {(uint8_t)(c + 0x12)});
  }
  for (auto& x : sh) {
    if (cpu == 4 && x.c == 0x60) continue;
    uint8_t c = x.c;
    add(t, x.n, "%", IK_ZA, {(uint8_t)(c + 6)}, {(uint8_t)(c + 0x0e)});
    add(t, x.n, "%,x", IK_ZA, {(uint8_t)(c + 0x16)}, {(uint8_t)(c + 0x1e)});
    add(t, x.n, "a", IK_FIX, {(uint8_t)(c + 0x0a)});
    add(t, x.n, "", IK_FIX, {(uint8_t)(c + 0x0a)});
  }
  add(t, "ldx", "#%", IK_N8, {0xa2});
  add(t, "ldx", "%", IK_ZA, {0xa6}, {0xae});
  add(t, "ldx", "%,y", IK_ZA, {0xb6}, {0xbe});
  add(t, "ldy", "#%", IK_N8, {0xa0});
  add(t, "ldy", "%", IK_ZA, {0xa4}, {0xac});
  add(t, "ldy", "%,x", IK_ZA, {0xb4}, {0xbc});
  add(t, "cpx", "#%", IK_N8, {0xe0});
  add(t, "cpx", "%", IK_ZA, {0xe4}, {0xec});
  add(t, "cpy", "#%", IK_N8, {0xc0});
  add(t, "cpy", "%", IK_ZA, {0xc4}, {0xcc});
  add(t, "stx", "%", IK_ZA, {0x86}, {0x8e});
  add(t, "stx", "%,y", IK_ZP, {0x96});
  add(t, "sty", "%", IK_ZA, {0x84}, {0x8c});
  add(t, "sty", "%,x", IK_ZP, {0x94});
  add(t, "inc", "%", IK_ZA, {0xe6}, {0xee});
  add(t, "inc", "%,x", IK_ZA, {0xf6}, {0xfe});
  add(t, "dec", "%", IK_ZA, {0xc6}, {0xce});
  add(t, "dec", "%,x", IK_ZA, {0xd6}, {0xde});
  add(t, "bit", "%", IK_ZA, {0x24}, {0x2c});
  add(t, "jmp", "%", IK_N16, {0x4c});
  add(t, "jmp", "(%)", IK_N16, {0x6c});
  add(t, "jsr", "%", IK_N16, {0x20});
  if (c02) {
    add(t, "bit", "#%", IK_N8, {0x89});
    add(t, "bit", "%,x", IK_ZA, {0x34}, {0x3c});
    add(t, "jmp", "(%,x)", IK_N16, {0x7c});
    add(t, "stz", "%", IK_ZA, {0x64}, {0x9c});
    add(t, "stz", "%,x", IK_ZA, {0x74}, {0x9e});
    add(t, "tsb", "%", IK_ZA, {0x04}, {0x0c});
    add(t, "trb", "%", IK_ZA, {0x14}, {0x1c});
    add(t, "inc", "a", IK_FIX, {0x1a});
    add(t, "dec", "a", IK_FIX, {0x3a});
    add(t, "bra", "%", IK_REL, {0x80});
    add(t, "phx", "", IK_FIX, {0xda});
    add(t, "plx", "", IK_FIX, {0xfa});
    add(t, "phy", "", IK_FIX, {0x5a});
    add(t, "ply", "", IK_FIX, {0x7a});
  }
}

void tab6800(std::vector<Ins>& t, int cpu) {
  struct { const char* n; int c; }
  br[] = {{"bra", 0x20}, {"bhi", 0x22}, {"bls", 0x23}, {"bcc", 0x24}, {"bcs", 0x25}, {"bne", 0x26}, {"beq", 0x27},
          {"bvc", 0x28}, {"bvs", 0x29}, {"bpl", 0x2a}, {"bmi", 0x2b}, {"bge", 0x2c}, {"blt", 0x2d}, {"bgt", 0x2e},
          {"ble", 0x2f}, {"bsr", 0x8d}},
  im[] = {{"nop", 0x01}, {"tap", 0x06}, {"tpa", 0x07}, {"inx", 0x08}, {"dex", 0x09}, {"clv", 0x0a}, {"sev", 0x0b},
          {"clc", 0x0c}, {"sec", 0x0d}, {"cli", 0x0e}, {"sei", 0x0f}, {"sba", 0x10}, {"cba", 0x11}, {"tab", 0x16},
          {"tba", 0x17}, {"daa", 0x19}, {"aba", 0x1b}, {"tsx", 0x30}, {"ins", 0x31}, {"pula", 0x32}, {"pulb", 0x33},
          {"des", 0x34}, {"txs", 0x35}, {"psha", 0x36}, {"pshb", 0x37}, {"rts", 0x39}, {"rti", 0x3b}, {"wai", 0x3e},
          {"swi", 0x3f}, {"nega", 0x40}, {"coma", 0x43}, {"lsra", 0x44}, {"rora", 0x46}, {"asra", 0x47}, {"asla", 0x48},
          {"rola", 0x49}, {"deca", 0x4a}, {"inca", 0x4c}, {"tsta", 0x4d}, {"clra", 0x4f}, {"negb", 0x50}, {"comb", 0x53},
          {"lsrb", 0x54}, {"rorb", 0x56}, {"asrb", 0x57}, {"aslb", 0x58}, {"rolb", 0x59}, {"decb", 0x5a}, {"incb", 0x5c},
          {"tstb", 0x5d}, {"clrb", 0x5f}},
  mem[] = {{"neg", 0x60}, {"com", 0x63}, {"lsr", 0x64}, {"ror", 0x66}, {"asr", 0x67}, {"asl", 0x68}, {"rol", 0x69},
           {"dec", 0x6a}, {"inc", 0x6c}, {"tst", 0x6d}, {"jmp", 0x6e}, {"clr", 0x6f}, {"jsr", 0xad}},
  acc[] = {{"suba", 0x80}, {"cmpa", 0x81}, {"sbca", 0x82}, {"anda", 0x84}, {"bita", 0x85}, {"ldaa", 0x86}, {"eora", 0x88},
           {"adca", 0x89}, {"oraa", 0x8a}, {"adda", 0x8b}, {"subb", 0xc0}, {"cmpb", 0xc1}, {"sbcb", 0xc2}, {"andb", 0xc4},
           {"bitb", 0xc5}, {"ldab", 0xc6}, {"eorb", 0xc8}, {"adcb", 0xc9}, {"orab", 0xca}, {"addb", 0xcb}},
  wide[] = {{"cpx", 0x8c}, {"lds", 0x8e}, {"ldx", 0xce}},
  sto[] = {{"staa", 0x87}, {"sts", 0x8f}, {"stab", 0xc7}, {"stx", 0xcf}},
  wide1[] = {{"subd", 0x83}, {"addd", 0xc3}, {"ldd", 0xcc}};
  for (auto& x : br) add(t, x.n, "%", IK_REL, {(uint8_t)x.c});
  for (auto& x : im) add(t, x.n, "", IK_FIX, {(uint8_t)x.c});
  auto modes = [&](const char* n, int c, int imm) {
    if (imm == 1) add(t, n, "#%", IK_N8, {(uint8_t)c});
    if (imm == 2) add(t, n, "#%", IK_N16, {(uint8_t)c});
    add(t, n, "%", IK_ZA, {(uint8_t)(c + 0x10)}, {(uint8_t)(c + 0x30)});
    add(t, n, "%,x", IK_X8, {(uint8_t)(c + 0x20)});
    add(t, n, ",x", IK_FIX, {(uint8_t)(c + 0x20), 0});
  };
  for (auto& x : mem) {
    add(t, x.n, "%,x", IK_X8, {(uint8_t)x.c});
    add(t, x.n, "%", IK_N16, {(uint8_t)(x.c + 0x10)});
    add(t, x.n, ",x", IK_FIX, {(uint8_t)x.c, 0});
  }
  for (auto& x : acc) modes(x.n, x.c, 1);
  for (auto& x : wide) modes(x.n, x.c, 2);
  for (auto& x : sto) modes(x.n, x.c, 0);
  if (cpu >= 2) {
    for (auto& x : wide1) modes(x.n, x.c, 2);
    modes("std", 0xcd, 0);
    add(t, "brn", "%", IK_REL, {0x21});
    struct { const char* n; int c; } i1[] = {{"lsrd", 4}, {"asld", 5}, {"pulx", 0x38}, {"abx", 0x3a}, {"pshx", 0x3c}, {"mul", 0x3d}};
    for (auto& x : i1) add(t, x.n, "", IK_FIX, {(uint8_t)x.c});
  }
}

void tabz80(std::vector<Ins>& t) {
  static const char* r8[8] = {"b", "c", "d", "e", "h", "l", "(hl)", "a"};
  static const char* r16[4] = {"bc", "de", "hl", "sp"};
  static const char* cc[8] = {"nz", "z", "nc", "c", "po", "pe", "p", "m"};
  typedef uint8_t U;
  struct { const char* n; int c; } s1[] = {{"nop", 0}, {"rlca", 7}, {"rrca", 0xf}, {"rla", 0x17}, {"rra", 0x1f}, {"daa", 0x27},
    {"cpl", 0x2f}, {"scf", 0x37}, {"ccf", 0x3f}, {"halt", 0x76}, {"ret", 0xc9}, {"exx", 0xd9}, {"di", 0xf3}, {"ei", 0xfb}},
    s2[] = {{"neg", 0x44}, {"retn", 0x45}, {"reti", 0x4d}, {"rrd", 0x67}, {"rld", 0x6f}, {"ldi", 0xa0}, {"cpi", 0xa1},
            {"ini", 0xa2}, {"outi", 0xa3}, {"ldd", 0xa8}, {"cpd", 0xa9}, {"ind", 0xaa}, {"outd", 0xab}, {"ldir", 0xb0},
            {"cpir", 0xb1}, {"inir", 0xb2}, {"otir", 0xb3}, {"lddr", 0xb8}, {"indr", 0xba}, {"otdr", 0xbb}},
    alu[] = {{"add", 0x80}, {"adc", 0x88}, {"sub", 0x90}, {"sbc", 0x98}, {"and", 0xa0}, {"xor", 0xa8}, {"or", 0xb0}, {"cp", 0xb8}},
    rot[] = {{"rlc", 0}, {"rrc", 8}, {"rl", 0x10}, {"rr", 0x18}, {"sla", 0x20}, {"sra", 0x28}, {"srl", 0x38}};
  for (auto& x : s1) add(t, x.n, "", IK_FIX, {(U)x.c});
  for (auto& x : s2) add(t, x.n, "", IK_FIX, {0xed, (U)x.c});
  const char* ixn[2] = {"ix", "iy"};
  U pf[2] = {0xdd, 0xfd};
  for (auto& x : alu) {
    std::string p = x.c == 0x80 || x.c == 0x88 || x.c == 0x98 ? "a," : "";
    for (int r = 0; r < 8; r++) add(t, x.n, p + r8[r], IK_FIX, {(U)(x.c + r)});
    add(t, x.n, p + "%", IK_N8, {(U)(x.c + 0x46)});
    for (int i = 0; i < 2; i++) add(t, x.n, p + "(" + ixn[i] + "&)", IK_D8, {pf[i], (U)(x.c + 6)});
  }
  for (auto& x : rot)
    for (int r = 0; r < 8; r++) add(t, x.n, r8[r], IK_FIX, {0xcb, (U)(x.c + r)});
  for (auto& x : rot)
    for (int i = 0; i < 2; i++) add(t, x.n, std::string("(") + ixn[i] + "&)", IK_D8P, {pf[i], 0xcb}, {(U)(x.c + 6)});
  struct { const char* n; int c; } bt[] = {{"bit", 0x40}, {"res", 0x80}, {"set", 0xc0}};
  for (auto& x : bt)
    for (int b = 0; b < 8; b++) {
      std::string p = std::to_string(b) + ",";
      for (int r = 0; r < 8; r++) add(t, x.n, p + r8[r], IK_FIX, {0xcb, (U)(x.c + b * 8 + r)});
      for (int i = 0; i < 2; i++)
        add(t, x.n, p + "(" + ixn[i] + "&)", IK_D8P, {pf[i], 0xcb}, {(U)(x.c + b * 8 + 6)});
    }
  for (int r = 0; r < 8; r++) {
    add(t, "inc", r8[r], IK_FIX, {(U)(0x04 + r * 8)});
    add(t, "dec", r8[r], IK_FIX, {(U)(0x05 + r * 8)});
    add(t, "ld", std::string(r8[r]) + ",%", IK_N8, {(U)(0x06 + r * 8)});
    for (int q = 0; q < 8; q++)
      if (r != 6 || q != 6) add(t, "ld", std::string(r8[r]) + "," + r8[q], IK_FIX, {(U)(0x40 + r * 8 + q)});
    if (r == 6) continue;
    for (int i = 0; i < 2; i++) {
      add(t, "ld", std::string(r8[r]) + ",(" + ixn[i] + "&)", IK_D8, {pf[i], (U)(0x46 + r * 8)});
      add(t, "ld", std::string("(") + ixn[i] + "&)," + r8[r], IK_D8, {pf[i], (U)(0x70 + r)});
    }
    add(t, "in", std::string(r8[r]) + ",(c)", IK_FIX, {0xed, (U)(0x40 + r * 8)});
    add(t, "out", std::string("(c),") + r8[r], IK_FIX, {0xed, (U)(0x41 + r * 8)});
  }
  for (int i = 0; i < 2; i++) {
    std::string x = ixn[i];
    add(t, "inc", "(" + x + "&)", IK_D8, {pf[i], 0x34});
    add(t, "dec", "(" + x + "&)", IK_D8, {pf[i], 0x35});
    add(t, "ld", "(" + x + "&),%", IK_D8N8, {pf[i], 0x36});
    add(t, "inc", x, IK_FIX, {pf[i], 0x23});
    add(t, "dec", x, IK_FIX, {pf[i], 0x2b});
    add(t, "ld", x + ",%", IK_N16, {pf[i], 0x21});
    add(t, "ld", x + ",(%)", IK_N16, {pf[i], 0x2a});
    add(t, "ld", "(%)," + x, IK_N16, {pf[i], 0x22});
    add(t, "ld", "sp," + x, IK_FIX, {pf[i], 0xf9});
    add(t, "push", x, IK_FIX, {pf[i], 0xe5});
    add(t, "pop", x, IK_FIX, {pf[i], 0xe1});
    add(t, "ex", "(sp)," + x, IK_FIX, {pf[i], 0xe3});
    add(t, "jp", "(" + x + ")", IK_FIX, {pf[i], 0xe9});
    for (int r = 0; r < 4; r++) add(t, "add", x + "," + (r == 2 ? x : std::string(r16[r])), IK_FIX, {pf[i], (U)(9 + r * 16)});
  }
  for (int r = 0; r < 4; r++) {
    std::string x = r16[r];
    add(t, "inc", x, IK_FIX, {(U)(0x03 + r * 16)});
    add(t, "dec", x, IK_FIX, {(U)(0x0b + r * 16)});
    add(t, "ld", x + ",%", IK_N16, {(U)(0x01 + r * 16)});
    if (r == 2) {
      add(t, "ld", x + ",(%)", IK_N16, {0x2a});
      add(t, "ld", "(%)," + x, IK_N16, {0x22});
    } else {
      add(t, "ld", x + ",(%)", IK_N16, {0xed, (U)(0x4b + r * 16)});
      add(t, "ld", "(%)," + x, IK_N16, {0xed, (U)(0x43 + r * 16)});
    }
    add(t, "add", "hl," + x, IK_FIX, {(U)(0x09 + r * 16)});
    add(t, "adc", "hl," + x, IK_FIX, {0xed, (U)(0x4a + r * 16)});
    add(t, "sbc", "hl," + x, IK_FIX, {0xed, (U)(0x42 + r * 16)});
    std::string y = r == 3 ? "af" : x;
    add(t, "push", y, IK_FIX, {(U)(0xc5 + r * 16)});
    add(t, "pop", y, IK_FIX, {(U)(0xc1 + r * 16)});
  }
  add(t, "ld", "a,(bc)", IK_FIX, {0x0a});
  add(t, "ld", "a,(de)", IK_FIX, {0x1a});
  add(t, "ld", "(bc),a", IK_FIX, {0x02});
  add(t, "ld", "(de),a", IK_FIX, {0x12});
  add(t, "ld", "a,(%)", IK_N16, {0x3a});
  add(t, "ld", "(%),a", IK_N16, {0x32});
  add(t, "ld", "a,i", IK_FIX, {0xed, 0x57});
  add(t, "ld", "a,r", IK_FIX, {0xed, 0x5f});
  add(t, "ld", "i,a", IK_FIX, {0xed, 0x47});
  add(t, "ld", "r,a", IK_FIX, {0xed, 0x4f});
  add(t, "ld", "sp,hl", IK_FIX, {0xf9});
  add(t, "ex", "de,hl", IK_FIX, {0xeb});
  add(t, "ex", "(sp),hl", IK_FIX, {0xe3});
  add(t, "ex", "af,af'", IK_FIX, {0x08});
  add(t, "jp", "(hl)", IK_FIX, {0xe9});
  add(t, "jp", "%", IK_N16, {0xc3});
  add(t, "call", "%", IK_N16, {0xcd});
  add(t, "jr", "%", IK_REL, {0x18});
  add(t, "djnz", "%", IK_REL, {0x10});
  for (int c = 0; c < 8; c++) {
    std::string x = cc[c];
    add(t, "jp", x + ",%", IK_N16, {(U)(0xc2 + c * 8)});
    add(t, "call", x + ",%", IK_N16, {(U)(0xc4 + c * 8)});
    add(t, "ret", x, IK_FIX, {(U)(0xc0 + c * 8)});
    if (c < 4) add(t, "jr", x + ",%", IK_REL, {(U)(0x20 + c * 8)});
    add(t, "rst", std::to_string(c * 8), IK_FIX, {(U)(0xc7 + c * 8)});
    if (c) add(t, "rst", std::to_string(c), IK_FIX, {(U)(0xc7 + c * 8)});
  }
  add(t, "im", "0", IK_FIX, {0xed, 0x46});
  add(t, "im", "1", IK_FIX, {0xed, 0x56});
  add(t, "im", "2", IK_FIX, {0xed, 0x5e});
  add(t, "in", "a,(%)", IK_N8, {0xdb});
  add(t, "out", "(%),a", IK_N8, {0xd3});
}

}  // namespace

const std::vector<Ins>& ins_table(int cpu) {
  static std::vector<Ins> t[8];
  if (t[cpu].empty()) {
    if (cpu >= 1 && cpu <= 3) tab6800(t[cpu], cpu);
    else if (cpu >= 4 && cpu <= 6) tab6502(t[cpu], cpu);
    else if (cpu == 7) tabz80(t[cpu]);
  }
  return t[cpu];
}
static const char* cpuname[8] = {"", "6800", "6801", "6803", "6500", "6502", "65C02", "Z80"};

// ---------------------------------------------------------------- text form
static std::string num_text(int64_t v, int style) {
  char b[80];
  if (v < 0) return "(0-" + num_text(-v, style) + ")";
  unsigned long long u = v;
  switch (style % 10) {
  default: snprintf(b, sizeof b, "%llu", u); break;
  case 1: snprintf(b, sizeof b, "$%llx", u); break;
  case 2: snprintf(b, sizeof b, "$%04llX", u); break;
  case 3: snprintf(b, sizeof b, "0%llXH", u); break;
  case 4: snprintf(b, sizeof b, "0x%llx", u); break;
  case 5: snprintf(b, sizeof b, "0X%llX", u); break;
  case 6:
  case 7: {
    if (u > 0xffff) { snprintf(b, sizeof b, "$%llx", u); break; }
    std::string s;
    for (unsigned long long x = u; x; x >>= 1) s.insert(s.begin(), '0' + (x & 1));
    if (s.empty()) s = "0";
    return style % 10 == 6 ? "%" + s : s + "b";
  }
  case 8: snprintf(b, sizeof b, "%lloq", u); break;
  }
  return b;
}
static std::string rcase(const std::string& s, int style) {
  std::string r = s;
  if ((style & 3) == 1) for (char& c : r) c = toupper(c);
  if ((style & 3) == 2) for (char& c : r) c = tolower(c);
  return r;
}
static int level(char op) { return op == '+' || op == '-' ? 1 : op == '*' || op == '/' ? 2 : op == '<' || op == '>' ? 4 : 3; }
static std::string esc_asc(const std::string& s, char d);
// an operand of an operation, with parentheses only where the precedence asks for them
static std::string side_text(const Expr& e, char op, bool right) {
  if (e.k == E_BIN && !(e.style & 2)) {
    int a = level(e.op), b = level(op);
    if (a > b || (!right && a == b && (e.op == op || a == 1))) return expr_text(e, 3);
  }
  if (e.k == E_STAR && !right && level(op) == 1) return "*";
  if ((e.k == E_NEG || e.k == E_NOT) && !right) return expr_text(e, 3);
  return expr_text(e, 1);
}
// ctx 0: complete operand; 1: inside an operation; 2: operand that must not start with a parenthesis; 3: no parentheses
std::string expr_text(const Expr& e, int ctx) {
  switch (e.k) {
  case E_NUM: {
    std::string s = num_text(e.v, e.style);
    return ctx == 2 && s[0] == '(' ? "0+" + s : ctx == 0 && s[0] == '(' ? s.substr(1, s.size() - 2) : s;
  }
  case E_LAB: return rcase(e.name, e.style);
  case E_STAR: return ctx == 1 ? "(*)" : "*";
  case E_NEG: {
    std::string s = "-" + expr_text(e.a[0], 1);
    return ctx == 1 ? "(" + s + ")" : s;
  }
  case E_NOT: {
    std::string s = "~" + expr_text(e.a[0], 1);
    return ctx == 1 ? "(" + s + ")" : s;
  }
  case E_LO: return rcase("lo", e.style) + "(" + expr_text(e.a[0], 0) + ")";
  case E_HI: return rcase("hi", e.style) + "(" + expr_text(e.a[0], 0) + ")";
  case E_BITNO: return "bit(" + e.name + ")";
  case E_BITAD: return "addr(" + e.name + ")";
  case E_BITREF: return expr_text(e.a[0], 1) + "{" + std::to_string(e.v) + "}";
  case E_CHR: {
    char d = e.style & 1 ? '"' : '\'';
    return d + esc_asc(e.name, d) + d;
  }
  case E_ARG: return "\\" + std::to_string(e.v);
  case E_NARG: return "\\#";
  case E_ALL: return "\\*";
  case E_REG: return rcase(e.name, e.style);
  case E_PAR: return (e.style & 1 ? "( " : "(") + expr_text(e.a[0], 0) + ")";
  case E_STR: return "\"" + esc_asc(e.name, '"') + "\"";
  case E_BIN: {
    std::string op(1, e.op);
    if (e.op == '<' || e.op == '>') op += e.op;
    if (e.style & 1) op = " " + op + " ";
    std::string s = e.style & 2 ? expr_text(e.a[0], 1) + op + expr_text(e.a[1], 1) : side_text(e.a[0], e.op, false) + op + side_text(e.a[1], e.op, true);
    if (ctx == 1) return "(" + s + ")";
    if (ctx == 2 && s[0] == '(') return "0+" + (e.op == '+' ? s : "(" + s + ")");
    return s;
  }
  }
  return "0";
}

static const char* cmp_text[] = {"=", "==", "<>", "!=", "<", ">", "<=", ">=", ""};

static std::string esc_asc(const std::string& s, char d) {
  std::string r;
  for (char c : s) {
    if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c == '\r') r += "\\r";
    else if (c == 0) r += "\\0";
    else if (c == '\\' || c == d) { r += '\\'; r += c; }
    else r += c;
  }
  return r;
}

struct Renderer {
  bool simple;
  std::vector<std::string> lines;
  std::map<std::string, std::string> alias;

  void put(const Stmt& s, const std::string& label, const std::string& mn, const std::string& oper, bool own = true) {
    uint32_t f = simple ? 0 : s.fmt;
    std::string l;
    auto al = alias.find(mn);
    std::string m = rcase(al != alias.end() && (f >> 5) % 3 == 0 ? al->second : mn, f & 3);
    if (!label.empty()) l = ((f >> 2) & 15) == 1 && !m.empty() ? "  " + label : label;
    if (!m.empty()) {
      bool col0 = label.empty() && ((f >> 6) & 7) == 1 && !oper.empty();
      if (!col0) l += ((f >> 9) & 3) == 1 ? "\t" : ((f >> 9) & 3) == 2 ? "   " : " ";
      l += m;
      if (!oper.empty()) l += (((f >> 11) & 3) == 1 ? "\t" : ((f >> 11) & 3) == 2 ? "  " : " ") + oper;
    }
    if (oper.find("'") == std::string::npos || mn != "ex") {
      if (((f >> 13) & 7) == 1) l += "  ";
      if (((f >> 13) & 7) == 2) l += "\t";
      if (((f >> 13) & 7) == 3) l += " \t ";
      if (((f >> 16) & 7) == 1) l += " ; note (" + std::to_string(f >> 20) + ") a=b, it's";
      if (((f >> 16) & 7) == 2) l += ";x";
    }
    if (own) s.line = (int)lines.size() + 1;
    lines.push_back(l);
  }
  std::string list(const std::vector<Expr>& v, bool blanks) {
    std::string r;
    for (size_t i = 0; i < v.size(); i++) r += (i ? (blanks ? ", " : ",") : "") + expr_text(v[i], 0);
    return r;
  }
  void stmts(const std::vector<Stmt>& v) {
    for (auto& s : v) stmt(s);
  }
  void stmt(const Stmt& s) {
    if (s.dead) {
      s.line = (int)lines.size() + 1;
      lines.push_back("");
      return;
    }
    switch (s.k) {
    case S_BLANK: s.line = (int)lines.size() + 1; lines.push_back(s.fmt & 1 ? "" : s.fmt & 2 ? "   " : "\t "); break;
    case S_COMMENT: s.line = (int)lines.size() + 1; lines.push_back((s.fmt & 1 ? "; " : "  ;") + s.text); break;
    case S_LABEL: put(s, s.label, "", ""); break;
    case S_ORG:
    case S_ALIAS:
    case S_EQU: {
      std::string n = s.k == S_ORG ? "*" : s.label, x = s.k == S_ALIAS ? rcase(s.text, s.fmt & 3) : expr_text(s.e[0], 0);
      uint32_t f = simple ? 0 : s.fmt >> 24;
      s.line = (int)lines.size() + 1;
      if (f % 8 == 1) lines.push_back(n + "=" + x);
      else if (f % 8 == 2) lines.push_back(n + " equ " + x);
      else if (f % 8 == 3) lines.push_back("  " + n + "\t= " + x + " ; set");
      else lines.push_back(n + " = " + x);
      break;
    }
    case S_DATA: {
      static const char* m[] = {"", "db", "ddb", "dw", "dl"};
      put(s, s.label, m[s.sub], list(s.e, s.fmt >> 28 & 1));
      break;
    }
    case S_ASC: {
      char d = s.sub ? '\'' : '"';
      if (!s.e.empty()) put(s, s.label, "asc", s.e[0].style == 9 ? "\"" + s.text + expr_text(s.e[0], 0) + "\"" : expr_text(s.e[0], 0));
      else put(s, s.label, "asc", std::string(1, d) + esc_asc(s.text, d) + d);
      break;
    }
    case S_DS: put(s, s.label, "ds", list(s.e, false)); break;
    case S_ALIGN: put(s, s.label, "align", s.sub ? "odd" : "even"); break;
    case S_CODE: put(s, "", "code", ""); break;
    case S_DUMMY: put(s, "", "dummy", ""); break;
    case S_CALL: put(s, s.label, s.text, list(s.e, s.fmt >> 28 & 1)); break;
    case S_EXITM: put(s, "", "exitm", ""); break;
    case S_INCLUDE: {
      s.line = (int)lines.size() + 1;
      lines.push_back((simple || !(s.fmt & 1) ? " include " : "\tINCLUDE  ") + s.text);
      break;
    }
    case S_INSTR: put(s, s.label, s.text, "@"); break;
    case S_LISTCTL: put(s, "", s.text.substr(0, s.text.find(' ')),
                        s.text.find(' ') == std::string::npos ? "" : s.text.substr(s.text.find(' ') + 1)); break;
    case S_OUTPUT: put(s, "", "output", s.sub == 2 ? "hex" : "scode"); break;
    case S_CPU: put(s, "", "cpu", s.text); break;
    case S_RAW:
    case S_ERR: s.line = (int)lines.size() + 1; lines.push_back(s.text); break;
    case S_IF: {
      std::string c = expr_text(s.e[0], 0);
      if (s.sub < 8) c += ((s.fmt >> 28 & 1) ? " " : "") + std::string(cmp_text[s.sub]) + expr_text(s.e[1], 0);
      put(s, "", "if", c);
      stmts(s.body);
      if (s.has_else) {
        put(s, "", "else", "", false);
        s.elseline = (int)lines.size();
        stmts(s.els);
      }
      put(s, "", "endc", "", false);
      s.endline = (int)lines.size();
      break;
    }
    case S_MACDEF:
      put(s, s.label, "macro", "");
      stmts(s.body);
      put(s, "", "endm", "", false);
      s.endline = (int)lines.size();
      break;
    }
  }
};

// instruction text needs the table, hence the program
static std::string ins_oper(const Ins& in, const std::vector<Expr>& e) {
  std::string r;
  size_t k = 0;
  for (char c : in.pat) {
    if (c == '%') {
      r += k < e.size() ? expr_text(e[k], 2) : "0";
      k++;
    } else if (c == '&') {
      int64_t d = k < e.size() ? e[k].v : 0;
      if (d != 0 || (k < e.size() && e[k].style % 2)) r += (d < 0 ? "-" : "+") + num_text(d < 0 ? -d : d, k < e.size() ? e[k].style : 0);
      k++;
    } else r += c;
  }
  return r;
}
// registers by their other names, except inside parentheses and where conditions are expected
static std::string aliased(const Renderer& R, const Stmt& s, const std::string& mn, const std::string& pat, const std::string& o) {
  static const char* no[] = {"ex", "jp", "jr", "call", "ret", "in", "out"};
  for (auto x : no) if (mn == x) return o;
  // the pattern's parts before the first and after the last operand are plain text
  size_t comma = pat.find(',');
  std::string a = pat.substr(0, comma), b = comma == std::string::npos ? "" : pat.substr(comma + 1);
  auto ia = R.alias.find("r:" + a), ib = R.alias.find("r:" + b);
  std::string r = o;
  uint32_t f = s.fmt >> 7;
  if (!b.empty() && ib != R.alias.end() && f % 2) r = r.substr(0, r.size() - b.size()) + rcase(ib->second, f);
  if (ia != R.alias.end() && f % 3) r = rcase(ia->second, f) + r.substr(a.size());
  return r;
}
static void fix_ins(Renderer& R, const Program& p, const std::vector<Stmt>& v);
static void keep_text(const Renderer& R, const std::vector<Stmt>& v) {
  for (auto& s : v) {
    s.txt = R.lines[s.line - 1];
    if (s.dead) continue;
    keep_text(R, s.body);
    keep_text(R, s.els);
  }
}
static void unprintables(Renderer& R, const std::vector<Stmt>& v) {
  for (auto& s : v) {
    if (s.dead) continue;
    if (s.ctl) {
      std::string& l = R.lines[s.line - 1];
      static const char cs[] = {1, 2, 7, 8, 11, 12, 27, 31, 127};
      l.insert(s.ctl % (l.size() + 1), 1, cs[s.ctl % sizeof cs]);
    }
    unprintables(R, s.body);
    unprintables(R, s.els);
  }
}

std::vector<std::pair<std::string, std::string>> render(const Program& p, const RenderOpt& ro) {
  std::vector<std::pair<std::string, std::string>> out;
  auto one = [&](const std::string& name, const std::vector<Stmt>& v) {
    Renderer R;
    R.simple = p.simple_layout;
    for (auto& s : p.main)
      if (s.k == S_ALIAS && !s.dead) R.alias[(s.sub ? "r:" : "") + s.text] = s.label;
    R.stmts(v);
    fix_ins(R, p, v);
    keep_text(R, v);
    unprintables(R, v);
    std::string t;
    bool nonl = std::find(ro.nonl.begin(), ro.nonl.end(), name) != ro.nonl.end();
    for (size_t i = 0; i < R.lines.size(); i++) {
      t += R.lines[i];
      if (i + 1 < R.lines.size() || !nonl) t += ro.crlf ? "\r\n" : "\n";
    }
    out.push_back({name, t});
  };
  one("a.asm", p.main);
  for (auto& i : p.incs) one(i.first, i.second);
  return out;
}
static void fix_ins(Renderer& R, const Program& p, const std::vector<Stmt>& v) {
  for (auto& s : v) {
    if (s.dead) continue;
    if (s.k == S_INSTR) {
      const Ins& in = ins_table(p.cpu)[s.sub];
      std::string& l = R.lines[s.line - 1];
      size_t at = l.find('@');
      std::string o = ins_oper(in, s.e);
      if (!R.alias.empty()) o = aliased(R, s, in.mn, in.pat, o);
      if (s.acc2) o = (s.fmt & 2 ? "a, " : "A,") + o;
      if (at != std::string::npos) {
        if (o.empty()) {
          size_t b = at;
          while (b > 0 && (l[b - 1] == ' ' || l[b - 1] == '\t')) b--;
          l = l.substr(0, b) + l.substr(at + 1);
          // a mnemonic alone in column 0 is fine; leave
        } else {
          if (o.find('\'') != std::string::npos && in.mn == "ex") l = l.substr(0, at) + o;
          else l = l.substr(0, at) + o + l.substr(at + 1);
        }
      }
    }
    fix_ins(R, p, s.body);
    fix_ins(R, p, s.els);
  }
}

// ---------------------------------------------------------------- reference model
namespace {
struct Err {};
struct Fatal {};
struct V {
  int64_t v = 0;
  bool fwd = false, undef = false;
  int type = 3, mod = 0;
};
struct Lab {
  bool undef = true, fwd = false, noredef = false, used = false;
  int type = 3, mod = 0;
  int64_t v = 0, v1 = 0;
  const Stmt* mac = nullptr;
  bool def1 = false;
};
std::string up(std::string s) {
  for (char& c : s) c = toupper(c);
  return s;
}
struct Exec {
  const Program& P;
  Model& M;
  std::map<std::string, Lab> labs;
  std::map<std::string, const Stmt*> macs;
  int pass = 0;
  Lab star;
  bool org = false, codeon = true, le = false, hex = false, hexs = false;
  int segment = 0, thiscall = 0, level = 0, nest = 0;
  int64_t adv = 0, insn = 0;
  int line = 0;
  std::string file = "a.asm";
  size_t em0 = 0;
  const std::vector<Expr>* args = nullptr;
  int budget = 30000;
  int macrodepth = 0, cur = 0;
  bool titled = false, paged = false;
  bool liston = true, mlist = false, clist = true, ilist = false;
  std::map<std::string, std::vector<std::string>> src;  // the lines of the files
  void list(int n, int64_t val = -1) {
    if (pass != 2 || macrodepth || !liston) return;
    auto& f = src[file];
    M.ll.push_back(LL{n, val, (uint32_t)M.grp.size(), n >= 1 && n <= (int)f.size() ? f[n - 1] : ""});
  }
  void listc(int a, int b) {  // lines of a branch not assembled
    if (pass != 2 || macrodepth || !liston || !clist) return;
    auto& f = src[file];
    for (int n = a; n <= b; n++) M.ll.push_back(LL{-1, -1, (uint32_t)M.grp.size(), n >= 1 && n <= (int)f.size() ? f[n - 1] : ""});
  }
  void deflines(const Stmt& s) {
    for (int n = s.line; n <= s.endline; n++) list(n);
  }
  // the value beside the line
  int64_t shown(const Stmt& s, int64_t at) {
    if (s.k == S_ORG || s.k == S_EQU) {
      auto it = labs.find(s.k == S_ORG ? "" : key(s.label));
      if (s.k == S_ORG) return star.v;
      return it == labs.end() || it->second.type != 3 ? -1 : it->second.v;
    }
    if (!codeon && !s.label.empty()) return at;
    return -1;
  }
  explicit Exec(const Program& p, Model& m) : P(p), M(m) {}

  std::string key(const std::string& n) {
    std::string k = n[0] == '.' ? std::to_string(segment) + n : n;
    return up(k);
  }
  V eval(const Expr& e) {
    V r;
    switch (e.k) {
    case E_NUM: r.v = e.v; return r;
    case E_STAR: r.v = star.v; r.fwd = star.fwd; if (star.undef) throw Err(); return r;
    case E_CHR: for (char c : e.name) r.v = (r.v << 8) + (unsigned char)c; return r;
    case E_PAR: r = eval(e.a[0]); warn(1, 1); return r;
    case E_REG: r.type = 5; r.v = e.v; return r;
    case E_STR: case E_ALL: M.phase.push_back(cur); return r;  // outside the model
    case E_NARG: r.v = args ? (int64_t)args->size() : 0; return r;
    case E_ARG:
      if (!args || e.v < 1 || e.v > (int64_t)args->size()) throw Err();
      return eval((*args)[e.v - 1]);
    case E_LAB:
    case E_BITNO:
    case E_BITAD: {
      std::string k = key(e.name);
      auto it = labs.find(k);
      if (it == labs.end()) {
        Lab l;
        l.undef = l.fwd = l.noredef = true;
        it = labs.emplace(k, l).first;
        if (pass == 2) M.phase.push_back(cur);  // unknown to the first pass
      }
      Lab& l = it->second;
      l.used = true;
      if (l.undef && !l.fwd) throw Err();
      r.v = l.v;
      r.fwd = l.fwd;
      r.undef = l.undef;
      r.type = l.type;
      r.mod = l.mod;
      if (e.k != E_LAB) {
        if (r.type != 6) throw Err();
        r.type = 3;
        if (e.k == E_BITNO) r.v = r.mod;
        r.mod = 0;
      }
      return r;
    }
    case E_BITREF:
      r = eval(e.a[0]);
      if (r.type != 3) throw Err();
      r.type = 6;
      r.mod = (int)e.v;
      return r;
    case E_NEG: case E_NOT: case E_LO: case E_HI:
      r = eval(e.a[0]);
      if (r.type != 3) throw Err();
      if (e.k == E_NEG) r.v = -r.v;
      if (e.k == E_NOT) r.v = ~r.v;
      if (e.k == E_LO) r.v &= 255;
      if (e.k == E_HI) r.v = (r.v >> 8) & 255;
      return r;
    case E_BIN: {
      r = eval(e.a[0]);
      V b = eval(e.a[1]);
      if (r.type != 3 || b.type != 3) throw Err();
      r.fwd |= b.fwd;
      r.undef |= b.undef;
      switch (e.op) {
      case '+': r.v += b.v; break;
      case '-': r.v -= b.v; break;
      case '*': r.v *= b.v; break;
      case '/': if (b.v) r.v /= b.v; break;
      case '&': r.v &= b.v; break;
      case '|': r.v |= b.v; break;
      case '^': r.v ^= b.v; break;
      case '<': if (b.v < 0 || b.v > 20) throw Err(); r.v = (int64_t)((uint64_t)r.v << b.v); break;
      case '>': if (b.v < 0 || b.v > 20) throw Err(); r.v >>= b.v; break;
      }
      // keep to values on which 32 and 64 bit arithmetic agree
      if (r.v > 0xffffffffll || r.v < -0x80000000ll) throw Err();
      return r;
    }
    }
    return r;
  }
  V abs(const Expr& e) {
    V v = eval(e);
    if (v.type != 3) throw Err();
    return v;
  }
  static std::string list_text(const std::vector<Expr>& v, bool blanks) {
    std::string r;
    for (size_t i = 0; i < v.size(); i++) r += (i ? (blanks ? ", " : ",") : "") + expr_text(v[i], 0);
    return r;
  }
  // the text that replaces a macro parameter; strings in it would end the string around it
  static bool quotes(const Expr& x) {
    if (x.k == E_STR || x.k == E_CHR) return true;
    for (auto& y : x.a) if (quotes(y)) return true;
    return false;
  }
  std::string argtext(const Expr& e) {
    if (e.k == E_NARG) return std::to_string(args ? args->size() : 0);
    if (e.k == E_ALL) {
      if (!args) throw Err();
      for (auto& x : *args) if (quotes(x)) throw Err();
      return alltext;
    }
    if (!args || e.v < 1 || e.v > (int64_t)args->size()) return "";
    auto& x = (*args)[e.v - 1];
    if (quotes(x)) throw Err();
    return expr_text(x, 0);
  }
  std::string alltext;
  // an operand that contains parameters of the macro around the call
  Expr subst(const Expr& x) {
    if (x.k == E_ARG) {
      if (!args || x.v < 1 || x.v > (int64_t)args->size() || (*args)[x.v - 1].k == E_STR) throw Err();
      return (*args)[x.v - 1];
    }
    Expr n = x;
    if (x.k == E_NARG) {
      n = Expr();
      n.v = args ? args->size() : 0;
    }
    for (auto& y : n.a) y = subst(y);
    return n;
  }
  void warn(int lo, int hi) {
    if (pass == 2 && hi) M.warns.push_back(Warn{line, lo, hi, liston});
  }
  // an operand for n bits; what is negative may be warned about
  void fits(int64_t v, int bits) {
    if (v < 0) warn(0, 1);
    else if (v >> bits) warn(1, 1);
  }
  void byte(int b) {
    if (!org) throw Err();
    if (insn > 0xffffffffll) throw Fatal();
    if (P.cpu && insn > 0xffff) throw Err();
    if (pass == 2) {
      M.coded = true;
      if (codeon) {
        if (M.em.size() > (P.huge ? 400000 : 60000)) throw Fatal();
        M.em.push_back(Em{(uint32_t)insn, (uint8_t)b, false});
        M.codelen++;
      }
    } else if (--budget < (P.huge ? -400000 : -60000)) throw Fatal();
    insn++;
    adv++;
  }
  void w16(int64_t v, bool l) {
    if (l) { byte(v & 255); byte(v >> 8 & 255); }
    else { byte(v >> 8 & 255); byte(v & 255); }
  }
  void def(const std::string& name, int type, V v, bool noredef, int id) {
    std::string k = key(name);
    auto it = labs.find(k);
    if (it == labs.end()) {
      Lab l;
      l.undef = true;
      it = labs.emplace(k, l).first;
    }
    Lab& l = it->second;
    if (!l.undef && (l.noredef || noredef)) throw Err();
    if (pass == 2 && l.undef && l.fwd && (l.v != v.v || l.type != type || l.mod != v.mod)) M.phase.push_back(id);
    if (pass == 2 && l.undef && l.noredef && l.def1 && l.v1 != v.v) M.phase.push_back(id);
    l.undef = false;
    l.type = type;
    l.fwd |= v.fwd;
    l.noredef |= noredef;
    l.mod = v.mod;
    l.v = v.v;
    if (pass == 1) { l.v1 = v.v; l.def1 = true; }
  }
  void here(const Stmt& s) {
    if (s.label.empty()) return;
    if (!org) throw Err();
    V v;
    v.v = star.v;
    def(s.label, 3, v, true, s.id);
  }
  static bool fits8(const V& v) { return v.v >= 0 && v.v < 256; }

  void instr(const Stmt& s) {
    const Ins& in = ins_table(P.cpu)[s.sub];
    size_t np = 0;
    for (char c : in.pat) np += c == '%' || c == '&';
    if (s.e.size() < np) throw Err();
    switch (in.kind) {
    case IK_FIX: for (int b : in.pre) byte(b); return;
    case IK_N8: {
      V v = abs(s.e[0]);
      for (int b : in.pre) byte(b);
      byte(v.v & 255);
      fits(v.v, 8);
      return;
    }
    case IK_N16: {
      V v = abs(s.e[0]);
      for (int b : in.pre) byte(b);
      w16(v.v, le);
      if (v.v < 0 || v.v > 65535) warn(0, 1);
      return;
    }
    case IK_REL: {
      V v = abs(s.e[0]);
      int64_t d = v.v - insn - 2;
      byte(in.pre[0]);
      byte(d & 255);
      if (d < -128 || d > 127) throw Err();
      return;
    }
    case IK_ZA: {
      V v = abs(s.e[0]);
      if (!fits8(v) || v.fwd) { byte(in.alt[0]); w16(v.v, le); }
      else { byte(in.pre[0]); byte(v.v & 255); }
      return;
    }
    case IK_ZP: {
      V v = abs(s.e[0]);
      if (!fits8(v) || v.fwd) throw Err();
      byte(in.pre[0]);
      byte(v.v & 255);
      return;
    }
    case IK_X8: {
      V v = abs(s.e[0]);
      byte(in.pre[0]);
      byte(v.v & 255);
      if (!fits8(v)) throw Err();
      return;
    }
    case IK_D8: case IK_D8P: {
      V v = abs(s.e[0]);
      for (int b : in.pre) byte(b);
      byte(v.v & 255);
      if (v.v < -128 || v.v > 127) warn(1, 1);
      for (int b : in.alt) byte(b);
      return;
    }
    case IK_D8N8: {
      V v = abs(s.e[0]), w = abs(s.e[1]);
      for (int b : in.pre) byte(b);
      byte(v.v & 255);
      byte(w.v & 255);
      if (v.v < -128 || v.v > 127) warn(1, 1);
      fits(w.v, 8);
      return;
    }
    }
  }
  // one line of its own; returns true for EXITM
  bool simple(const Stmt& s) {
    switch (s.k) {
    case S_BLANK: case S_COMMENT: case S_ALIAS: return false;
    case S_LISTCTL: {
      if (!s.text.compare(0, 5, "skip ") && (s.text == "skip 0-1" || atoi(s.text.c_str() + 5) > 100)) warn(1, 1);
      bool* again = !s.text.compare(0, 4, "nam ") ? &titled : !s.text.compare(0, 5, "page ") ? &paged : nullptr;
      if (again && pass == 2) {
        if (*again) warn(1, 1);
        *again = true;
      }
      bool on = s.text.size() > 3 && s.text.substr(s.text.size() - 3) == " on";
      if (!on && !(s.text.size() > 4 && s.text.substr(s.text.size() - 4) == " off")) return false;
      switch (s.text[0]) {
      case 'l': if (macrodepth && liston != on) M.listodd = true; liston = on; break;
      case 'm': if (macrodepth && mlist != on) M.listodd = true; mlist = on; break;
      case 'c': clist = on; break;
      case 'i': ilist = on; break;
      }
      return false;
    }
    case S_LABEL: here(s); return false;
    case S_ORG: {
      V v = eval(s.e[0]);
      if (v.type != 3 || v.v < 0 || v.v > 0xffffffffll || (P.cpu && v.v > 0xffff) || v.fwd) throw Err();
      star.v = v.v;
      star.undef = false;
      star.fwd = v.fwd;
      return false;
    }
    case S_EQU: {
      V v = eval(s.e[0]);
      def(s.label, v.type, v, false, s.id);
      return false;
    }
    case S_DATA:
      here(s);
      if (s.e.empty()) throw Err();
      if (s.e[0].k == E_ALL && (!args || args->empty())) throw Err();
      for (auto& x : s.e[0].k == E_ALL ? *args : s.e) {
        V v = abs(x);
        if (s.sub < 4) fits(v.v, s.sub == 1 ? 8 : 16);
        if (s.sub == 1) byte(v.v & 255);
        if (s.sub == 2) w16(v.v, !le);
        if (s.sub == 3) w16(v.v, le);
        if (s.sub == 4) {
          if (le) { w16(v.v, le); w16(v.v >> 16, le); }
          else { w16(v.v >> 16, le); w16(v.v, le); }
        }
      }
      return false;
    case S_ASC:
      here(s);
      if (s.e.empty()) for (char c : s.text) byte((unsigned char)c);
      else if (s.e[0].style == 9) {  // text, then the operand as it is written
        for (char c : s.text + argtext(s.e[0])) byte((unsigned char)c);
      } else {
        if (!args || s.e[0].v > (int64_t)args->size() || (*args)[s.e[0].v - 1].k != E_STR) throw Err();
        for (char c : (*args)[s.e[0].v - 1].name) byte((unsigned char)c);
      }
      return false;
    case S_DS: {
      here(s);
      int fill = 0;
      if (s.e.size() > 1) {
        V f = abs(s.e[1]);
        fits(f.v, 8);
        fill = f.v & 255;
      }
      V v = abs(s.e[0]);
      if (v.v < 0 || v.v > (P.huge ? 0x18000 : 4000) || v.undef) throw Err();
      for (int64_t i = 0; i < v.v; i++) byte(fill);
      return false;
    }
    case S_ALIGN: here(s); if (!org) throw Err(); if ((insn & 1) == (s.sub ? 0 : 1)) byte(0); return false;
    case S_CODE: segment = ++thiscall; codeon = true; return false;
    case S_DUMMY: segment = ++thiscall; codeon = false; return false;
    case S_OUTPUT: hex = s.sub == 2; return false;
    case S_CPU: if (P.cpu == 7) hex = true; return false;
    case S_EXITM: return macrodepth > 0;
    case S_INSTR:
      here(s);
      if (s.acc2) warn(1, 1);
      instr(s);
      return false;
    case S_RAW: return false;
    case S_ERR:
      // whatever the line, it is in error; some kinds take space first
      if (s.sub == ERR_REDEF && (s.text[0] | 32) == 'l') {
        auto it = labs.find(key("lab_dup"));
        if (it == labs.end() || it->second.undef) M.phase.push_back(s.id);  // it would be the definition
      }
      if (P.cpu && insn > 0xfffd) M.phase.push_back(s.id);
      if (s.sub == ERR_NOORG && org) M.phase.push_back(s.id);  // no error then
      if (s.sub == ERR_BADMODE)
        for (int i = 0; i < s.e[0].v; i++) byte(0);
      if (s.sub == ERR_MISSING) {
        if (P.cpu && insn > 0xfff8) M.phase.push_back(s.id);
        for (int i = 0; i < s.e[0].v; i++) byte(0);
      }
      if (s.sub == ERR_LONGBRANCH) { byte(0); byte(0); }
      throw Err();
    }
    return false;
  }
  std::vector<Stmt> const* incbody(const std::string& n) {
    for (auto& i : P.incs) if (i.first == n) return &i.second;
    return nullptr;
  }
  // a line holds at most 249 characters, also after the replacement of macro parameters
  bool toolong(const Stmt& s) {
    const std::string& t = s.txt;
    if (t.size() > 249) return true;
    if (!args) return false;
    size_t n = 0;
    for (size_t i = 0; i < t.size(); i++) {
      char c = i + 1 < t.size() ? t[i + 1] : 0;
      if (t[i] != '\\') n++;
      else if (c == '#') n++, i++;
      else if (c == '*') n += alltext.size(), i++;
      else if (c >= '1' && c <= '9') n += c - '1' < (int)args->size() ? expr_text((*args)[c - '1'], 0).size() : 0, i++;
      else n++;
    }
    return n > 249;
  }
  // lines that are not assembled are still searched for mnemonics: an erroneous line among them is
  // outside the model, so is the call of a macro that does not exist
  void skipped(const std::vector<Stmt>& v) {
    for (auto& s : v) {
      if (s.dead) continue;
      if (toolong(s) || s.k == S_ERR || (s.k == S_CALL && !macs.count(up(s.text)))) M.phase.push_back(s.id);
      if (s.k == S_MACDEF || s.k == S_IF) skipped(s.body), skipped(s.els);
    }
  }
  bool run(const std::vector<Stmt>& v) {
    for (auto& s : v) {
      if (s.dead) { list(s.line); continue; }
      if (--budget < 0) throw Fatal();
      cur = s.id;
      if (macrodepth == 0 || nest > nest_at_macro) line = s.line;
      if (s.ctl) warn(1, 1);
      adv = 0;
      org = !star.undef;
      insn = star.v;
      size_t e0 = M.em.size();
      if (pass == 2) M.grp.push_back({(uint32_t)e0, liston});
      try {
        bool x = false;
        if (toolong(s)) throw Err();
        if (s.k == S_IF) {
          V a = eval(s.e[0]), b;
          if (s.sub < 8) b = eval(s.e[1]);
          if ((a.fwd && a.undef) || (b.fwd && b.undef)) throw Err();
          if (a.type != b.type || (a.type != 3 && s.sub > 3)) throw Err();
          bool t = false;
          switch (s.sub) {
          case 0: case 1: t = a.v == b.v && a.mod == b.mod; break;
          case 2: case 3: t = a.v != b.v || a.mod != b.mod; break;
          case 4: t = a.v < b.v; break;
          case 5: t = a.v > b.v; break;
          case 6: t = a.v <= b.v; break;
          case 7: t = a.v >= b.v; break;
          case 8: t = a.v != 0; break;
          }
          if (clist) list(s.line);
          if (t) x = run(s.body);
          else skipped(s.body), listc(s.line + 1, (s.has_else ? s.elseline : s.endline) - 1);
          if (s.has_else) {
            if (clist) list(s.elseline);
            if (!t) x = run(s.els);
            else if (!x) skipped(s.els), listc(s.elseline + 1, s.endline - 1);
          }
          if (x) return true;
          if (clist) list(s.endline);
          continue;
        }
        if (s.k == S_MACDEF) {
          if (macrodepth) throw Err();
          for (auto& b : s.body) if (b.txt.size() > 249) M.phase.push_back(b.id);
          std::string k = up(s.label);
          macs[k] = &s;
          deflines(s);
          continue;
        }
        if (s.k == S_CALL) {
          here(s);
          auto it = macs.find(up(s.text));
          if (it == macs.end()) throw Err();
          if (level + 1 >= 10) throw Fatal();
          if (s.e.size() > 9) throw Err();
          std::vector<Expr> av;
          for (auto& x : s.e) {
            if (x.k == E_ARG) {
              if (!args || x.v < 1 || x.v > (int64_t)args->size()) throw Err();
              av.push_back((*args)[x.v - 1]);
            } else if (x.k == E_NARG) {
              Expr n;
              n.v = args ? args->size() : 0;
              av.push_back(n);
            } else if (x.k == E_ALL) {
              if (!args) throw Err();
              av.insert(av.end(), args->begin(), args->end());
            } else av.push_back(subst(x));
          }
          if (av.size() > 9) throw Err();
          std::string at = list_text(av, s.fmt >> 28 & 1);
          if (s.e.size() == 1 && s.e[0].k == E_ALL) at = alltext;
          auto oldargs = args;
          std::string oldall = alltext;
          alltext = at;
          int oldseg = segment, oldnam = nest_at_macro, oldline = line;
          std::string oldfile = file;
          bool oldlist = liston;
          if (mlist) list(s.line), M.mlisted = true;
          args = &av;
          segment = ++thiscall;
          level++;
          macrodepth++;
          nest_at_macro = nest;
          if (level > M.maxlevel) M.maxlevel = level;
          run(it->second->body);
          macrodepth--;
          level--;
          nest_at_macro = oldnam;
          segment = oldseg;
          args = oldargs;
          alltext = oldall;
          line = oldline;
          file = oldfile;
          liston = oldlist;
          if (!mlist) list(s.line);
          continue;
        }
        if (s.k == S_INCLUDE) {
          auto b = incbody(s.text);
          if (!b) throw Err();
          if (level + 1 >= 10) throw Fatal();
          std::string oldfile = file;
          int oldline = line;
          level++;
          nest++;
          if (nest > M.maxnest) M.maxnest = nest;
          if (level > M.maxlevel) M.maxlevel = level;
          bool oldlist = liston;
          list(s.line);
          if (macrodepth && liston && !ilist && !mlist) M.listodd = true;
          if (!ilist) liston = false;
          file = s.text;
          bool x2 = run(*b);
          liston = oldlist;
          file = oldfile;
          line = oldline;
          level--;
          nest--;
          if (x2) return true;
          continue;
        }
        x = simple(s);
        int64_t at = star.v;
        star.v += adv;
        list(s.line, shown(s, at));
        if (x) return true;
      } catch (Err&) {
        star.v += adv;
        if (pass == 2) {
          M.errs.push_back(ModelErr{s.id, line, file});
          for (size_t i = e0; i < M.em.size(); i++) M.em[i].bad = true;
        } else
          M.pass1errs.push_back(s.id);
      }
    }
    return false;
  }
  int nest_at_macro = 1000;
  void go() {
    le = P.cpu >= 4;
    for (pass = 1; pass <= 2; pass++) {
      star = Lab();
      star.undef = true;
      star.v = pass == 1 ? 0 : laststar;
      codeon = liston = clist = true;
      mlist = false;
      segment = thiscall = level = nest = 0;
      macrodepth = 0;
      nest_at_macro = 1000;
      budget = P.huge ? 250000 : 30000;
      file = "a.asm";
      macs.clear();
      run(P.main);
      laststar = star.v;
      if (pass == 1)
        for (auto& l : labs) {
          if (!l.second.noredef || l.second.undef) l.second.fwd = false;
          l.second.undef = true;
        }
    }
    M.last = star.undef ? (uint64_t)-1 : (uint64_t)(star.v - 1);
    M.hex = hex;
    for (auto& l : labs)
      if (!l.second.undef && !isdigit((unsigned char)l.first[0])) M.syms.push_back(Sym{l.first, l.second.type == 6 ? "Bit" + std::to_string(l.second.mod) : "Abs", l.second.v});
    for (auto& m : macs) M.syms.push_back(Sym{m.first, "Macro", 0});
    for (auto& s : P.main)
      if (s.k == S_ALIAS && !s.dead) M.syms.push_back(Sym{up(s.label), s.sub ? "Register(s)" : "Mnemonic", 0});
    M.label_count = labs.size();
  }
  int64_t laststar = 0;
};
}  // namespace

Model run_model(const Program& p) {
  Model m;
  auto text = render(p);  // sets the text of the lines
  Exec x(p, m);
  for (auto& f : text) {
    std::vector<std::string>& l = x.src[f.first];
    for (size_t i = 0; i < f.second.size();) {
      size_t e = f.second.find('\n', i);
      if (e == std::string::npos) e = f.second.size();
      l.push_back(f.second.substr(i, e - i));
      i = e + 1;
    }
  }
  try {
    x.go();
  } catch (Fatal&) {
    m.fatal = true;
  }
  m.ok = !m.fatal && m.errs.empty() && m.phase.empty();
  return m;
}

static void collect(std::vector<Stmt>& v, std::map<int, Stmt*>& m) {
  for (auto& s : v) {
    m[s.id] = &s;
    collect(s.body, m);
    collect(s.els, m);
  }
}
static void errids(const std::vector<Stmt>& v, std::set<int>& out) {
  for (auto& s : v) {
    if (s.k == S_ERR) out.insert(s.id);
    errids(s.body, out);
    errids(s.els, out);
  }
}
void repair(Program& p, const std::vector<int>& keep) {
  std::map<int, Stmt*> m;
  collect(p.main, m);
  for (auto& i : p.incs) collect(i.second, m);
  std::set<int> want(keep.begin(), keep.end());
  errids(p.main, want);
  for (auto& i : p.incs) errids(i.second, want);
  for (int it = 0; it < 12; it++) {
    render(p);
    Model M = run_model(p);
    std::set<int> bad;
    for (auto& e : M.errs) if (!want.count(e.id)) bad.insert(e.id);
    // errors of the first pass only are legal (and silent), but let labels shift
    for (int e : M.phase) bad.insert(e);
    for (int e : M.pass1errs) if (!want.count(e)) bad.insert(e);
    if (M.fatal) {
      // too deep, too long: drop calls, includes and the later half
      for (auto& x : m) if (x.second->k == S_CALL || x.second->k == S_INCLUDE) if (it > 6 || x.first % 2 == it % 2) bad.insert(x.first);
    }
    if (bad.empty()) return;
    for (int b : bad) if (m.count(b)) m[b]->dead = true;
  }
}

void stmt_lists(Program& p, std::vector<std::vector<Stmt>*>& out) {
  std::vector<std::vector<Stmt>*> todo{&p.main};
  for (auto& i : p.incs) todo.push_back(&i.second);
  while (!todo.empty()) {
    auto v = todo.back();
    todo.pop_back();
    out.push_back(v);
    for (auto& s : *v) {
      if (!s.body.empty()) todo.push_back(&s.body);
      if (!s.els.empty()) todo.push_back(&s.els);
    }
  }
}
static int cnt(const std::vector<Stmt>& v) {
  int n = 0;
  for (auto& s : v) n += 1 + cnt(s.body) + cnt(s.els);
  return n;
}
int count_stmts(const Program& p) {
  int n = cnt(p.main);
  for (auto& i : p.incs) n += cnt(i.second);
  return n;
}

// ---------------------------------------------------------------- generator
namespace {
struct Gen {
  Rng& r;
  GenOpt o;
  Program P;
  int nextid = 1;
  std::vector<std::string> labels, unplaced, consts, vars, bits, ofiles, multifiles;
  struct Mac {
    std::string name;
    int n;          // number of parameters
    int str;        // the one that must be a string, or 0
    bool any;       // takes any number of further operands
    int rec;        // the one that counts the recursion, or 0
  };
  std::vector<Mac> macros;
  std::set<std::string> taken;
  std::string common;
  // a new name; in some programs all names begin alike, or look like numbers and operators
  std::string name(const std::string& n) {
    static const char* odd[] = {"beefh", "d0b", "f777q", "lo_1", "hi2", "bit_x", "addr9", "e1h", "cafeh", "b101b", "db1", "if_", "endc2", "ds_x", "_", "__", "equ_", "e", "q7q",
                                "a0h", "f0.b", "x.1", "b1", "else1", "macro_", "asc.", "not1", "o17q", "d", "h2", "on1", "even1", "fail_", "nop1", "ldax", "jmp_", "c0h", "include_", "lo.", "hi_"};
    std::string t = n;
    for (int i = 0; i < 30; i++) {
      if (o.nstyle == 1 && !common.empty()) {
        int k = r.below(4);
        t = k == 0 ? common + std::string(r.below(3), '1') : common.substr(0, common.size() - r.below(4)) + std::string(1, "abz019_"[r.below(7)]) + (r.chance(50) ? std::to_string(r.below(100)) : "");
      } else if (o.nstyle == 2) {
        t = odd[r.below(38)];
        if (r.chance(20)) t += r.chance(50) ? "h" : "_";
        if (P.cpu && t.size() < 2) continue;  // registers
      }
      if (t.size() > 36) t.resize(36);
      if (i > 25) t = n;
      std::string u = t;
      for (char& c : u) c = toupper(c);
      if (taken.insert(u).second) return t;
    }
    taken.insert(n);
    return n;
  }
  std::vector<std::string> constlate;
  int left = 0;
  int64_t guess = 0;

  Gen(Rng& rr, const GenOpt& oo) : r(rr), o(oo) {}

  Stmt st(int k) {
    Stmt s;
    s.k = k;
    s.id = nextid++;
    s.fmt = o.layout ? (uint32_t)r.next() : 0;
    return s;
  }
  Expr num(int64_t v) {
    Expr e;
    e.v = v;
    e.style = o.layout ? r.below(10) : (v > 9 ? 1 : 0);
    return e;
  }
  Expr lab(const std::string& n) {
    Expr e;
    e.k = E_LAB;
    e.name = n;
    e.style = o.layout && r.chance(25) ? r.below(3) : 0;
    return e;
  }
  Expr bin(char op, Expr a, Expr b) {
    Expr e;
    e.k = E_BIN;
    e.op = op;
    e.style = (o.layout && r.chance(15) ? 1 : 0) | (o.minpar && r.chance(80) ? 0 : 2);
    e.a = {a, b};
    return e;
  }
  Expr un(int k, Expr a) {
    Expr e;
    e.k = k;
    e.a = {a};
    return e;
  }
  struct Ctx {
    bool macro = false, inc = false, cond = false, oncelabels = true, toplevel = true, incall = false;
    int nparam = 0, strparam = 0;
    int depth = 0;
    std::vector<std::string> locals, pend;  // local labels so far, and those still to be placed
    int nlocal = 0;
    std::string incname;
    bool scope() const { return (macro || (toplevel && !inc)) && !cond; }
  };
  std::string localname(Ctx& c) {
    return (o.nstyle == 1 ? "." + common.substr(0, 24) : std::string(".")) + std::string(1, "aax"[r.below(3)]) + std::to_string(c.nlocal++);
  }
  // places the local labels that were only referenced so far
  void flush(Ctx& c, std::vector<Stmt>& v) {
    for (auto& n : c.pend) {
      Stmt s = st(r.chance(50) ? S_LABEL : S_DATA);
      s.label = n;
      if (s.k == S_DATA) {
        s.sub = r.range(1, 4);
        s.e.push_back(num(r.below(256)));
      }
      v.push_back(s);
    }
    c.pend.clear();
  }
  Expr atom(Ctx& c, int64_t lo, int64_t hi) {
    int k = r.below(100);
    if (c.nparam && k < 25) {
      Expr e;
      e.k = E_ARG;
      e.v = r.range(1, c.nparam);
      if (e.v == c.strparam) return num(r.below(9));
      return e;
    }
    if (k < 40 && !labels.empty()) return lab(r.pick(labels));
    if (k < 48 && !consts.empty()) return lab(r.pick(consts));
    if (k < 52 && !vars.empty()) return lab(r.pick(vars));
    if (k < 56 && !c.locals.empty()) return lab(r.pick(c.locals));
    if (k < 57 && o.locals && !c.pend.empty()) return lab(r.pick(c.pend));
    if (k < 58 && o.locals && c.scope() && c.pend.size() < 2) {
      c.pend.push_back(localname(c));
      return lab(c.pend.back());
    }
    if (k < 60) {
      Expr e;
      e.k = E_STAR;
      return e;
    }
    if (k < 63) {
      Expr e;
      e.k = E_CHR;
      e.style = r.below(2);
      int n = r.chance(70) ? 1 : 2;
      if (o.chrs && r.chance(70)) {
        static const char any[] = "aZ0()+-*/<>&|^~!=;,[] .$%#@:?_\"'\\\t\n\r";
        for (int i = 0; i < n; i++) e.name += any[r.below(c.macro || c.incall ? (int)sizeof any - 7 : (int)sizeof any)];
        return e;
      }
      for (int i = 0; i < n; i++) e.name += o.edges && r.chance(40) ? "()"[r.below(2)] : "abcXYZ019"[r.below(9)];
      return e;
    }
    if (k < 65 && !bits.empty()) {
      Expr e;
      e.k = r.chance(50) ? E_BITNO : E_BITAD;
      e.name = r.pick(bits);
      return e;
    }
    return num(lo + (int64_t)(r.next() % (uint64_t)(hi - lo + 1)));
  }
  Expr ex(Ctx& c, int64_t lo, int64_t hi) {
    int k = r.below(100);
    if (k < 70) return atom(c, lo, hi);
    if (k < 75) return un(E_LO, atom(c, lo, hi));
    if (k < 79) return un(E_HI, atom(c, lo, hi));
    if (k < 82) return un(E_NEG, atom(c, 0, 100));
    if (k < 84) return un(E_NOT, atom(c, 0, 100));
    static const char ops[] = "++++---*/&|^<>";
    char op = ops[r.below(14)];
    Expr b = op == '<' || op == '>' ? num(r.range(0, 6)) : op == '*' || op == '/' ? num(r.chance(12) ? -r.range(1, 9) : r.range(1, 9)) : atom(c, 0, 40);
    Expr a = atom(c, lo, hi);
    if (r.chance(15)) a = bin("+-"[r.below(2)], a, num(r.range(0, 9)));
    return bin(op, a, b);
  }
  int64_t edge() {
    static const int64_t e[] = {0, 1, 127, 128, 254, 255, 256, 257, 0x1ff, 0x200, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff,
                                0x10000, 0x10001, 0x100ff, 0xff0000, 0x1000000, 0x7fffffff, 0x80000000ll, 0xffffff00ll, 0xffffffffll, -1, -128, -129, -256, -32768};
    return e[r.below((int)(sizeof e / sizeof *e))];
  }
  // C23: a value around the limits, an operand in parentheses
  Expr edged(Expr e) {
    if (!o.edges) return e;
    if (r.chance(30)) e = num(edge());
    if (r.chance(12)) {
      Expr p;
      p.k = E_PAR;
      p.style = r.below(2);
      p.a.push_back(e);
      return p;
    }
    return e;
  }
  Expr bytev(Ctx& c) {
    if (o.edges && r.chance(25)) return num(edge());
    int k = r.below(100);
    if (k < 55) return num(r.below(256));
    if (k < 80) return un(r.chance(60) ? E_LO : E_HI, atom(c, 0, 65535));
    if (!o.warnings) return num(r.below(256));
    return ex(c, 0, 255);
  }
  // an operand for conditions: nothing forward
  Expr condv(Ctx& c) {
    int k = r.below(100);
    if (c.macro && k < 25) {
      Expr e;
      e.k = E_NARG;
      return e;
    }
    if (c.nparam && k < 45) {
      Expr e;
      e.k = E_ARG;
      e.v = r.range(1, c.nparam);
      if (e.v == c.strparam) return num(r.below(3));
      return e;
    }
    if (k < 60 && !vars.empty()) return lab(r.pick(vars));
    if (k < 75 && !consts.empty()) return lab(r.pick(consts));
    if (k < 80 && !labels.empty()) return lab(r.pick(labels));
    return num(r.below(4));
  }
  std::string mklabel(Ctx& c) {
    if (!c.oncelabels || c.cond ? true : unplaced.empty()) return "";
    if (!r.chance(35)) return "";
    std::string n = unplaced.back();
    unplaced.pop_back();
    return n;
  }
  std::string anylabel(Ctx& c) {
    std::string n = mklabel(c);
    if (n.empty() && o.locals && c.scope() && r.chance(c.macro ? 12 : 6) && c.locals.size() < 5) {
      if (!c.pend.empty() && r.chance(60)) {
        n = c.pend.back();
        c.pend.pop_back();
      } else n = localname(c);
      c.locals.push_back(n);
    }
    return n;
  }
  Stmt orgst() {
    Stmt s = st(S_ORG);
    int k = r.below(100);
    static const int64_t small[] = {0x1000, 0x1010, 0x100f, 0x0ff8, 0x2000, 0x0080, 0x00f8, 0x0100, 0xfff0, 0x8000, 0xc000, 0x0000, 0x0200};
    static const int64_t bigs[] = {0xfff8, 0x10000, 0xfff0, 0x1fffa, 0x20000, 0xfffff8, 0x1000000, 0xfffffe0, 0x12345678, 0xffff0000};
    if (k < 15) s.e.push_back(bin('+', Expr{E_STAR, 0, 0, '+', "", {}}, num(r.below(20))));
    else if (k < 20) s.e.push_back(bin('-', Expr{E_STAR, 0, 0, '+', "", {}}, num(r.below(6))));
    else if (P.cpu == 0 && k < 55) s.e.push_back(num(bigs[r.below(10)] + (r.chance(40) ? r.below(8) : 0)));
    else s.e.push_back(num(small[r.below(13)] + (r.chance(30) ? r.below(12) : 0)));
    return s;
  }
  Expr disp() {
    if (o.edges && r.chance(40)) {
      static const int e[] = {-129, -128, -127, 127, 128, 129, 255, 256, -256, 300, 0x7f0};
      return num(e[r.below(11)]);
    }
    return num(r.range(-128, 127));
  }
  // a line with an operand that is malformed or of the wrong type; no byte of it is assembled
  std::string badexpr(bool backslash) {
    static const char* any[] = {
        "5+", "+", "*/2", "12x", "$fg", "$", "0x", "0xg1", "0b12", "%12", "%", "8q", "777qq", "12hh", "1 2", "5 5", "1-", "1*", "2/", "3<<", "<<3",
        "(1", "1)", "((1)", ")(", "()", "(1))", ",1", "addr(5)", "bit(5)", "addr()", "lo()", "hi()", "lo(", "5{33}", "5{40}", "db", "dw+1",
        "'a", "\"a", "'abcdefghi'", "99999999999999999999999", "$ffffffffffffffffff", "1=2", "1==2", "#5", "@5", "[5]", "1..2", "5.", "!1", "1!2", "1^",
        "|", "&1", "1+(2", "~", "-", "~~", "{1}", "5{", "5}", "5{}", "0b2", "1b1", "1h1", "9h9", "$$1", "%%1", "2*+", "2 +", "/1", "1//2", "1**2", "~'", "lo 5"};
    static const char* regs[] = {"a", "hl", "a+1", "-b", "lo(c)", "a-b", "1+bc", "~de", "a&1", "ix", "sp", "(hl)+1", "a*b"};
    std::string x = any[r.below(sizeof any / sizeof *any)];
    int k = r.below(100);
    if (k < 10 && P.cpu == 7) x = regs[r.below(13)];
    else if (k < 25) {
      static const char* f[] = {"@+2", "@+1", "~@", "lo(@)", "@{2}", "-@", "1+@", "@*2", "hi(@)", "@|1", "@{}"};
      x = f[r.below(11)];
      x.replace(x.find('@'), 1, r.chance(50) ? "5{3}" : "(12{0})");
    } else if (k < 35 && backslash) x = r.chance(50) ? "1\\2" : "'a\\q'";
    else if (k < 38 && P.cpu) x = ins_table(P.cpu)[0].mn;
    else if (k < 46) {  // a constant of more than 32 bits
      static const uint64_t edge[] = {0x100000000ull, 0x100000001ull, 0x1000000ffull, 0x17fffffffull, 0x180000000ull, 0x1dfffffffull, 0x1ffffffffull, 0x200000000ull, 0xfffffffffull, 0x1000000000ull};
      uint64_t v = r.chance(60) ? edge[r.below(10)] : 0x100000000ull + r.next() % 0x700000000ull;
      int base = r.pick(std::vector<int>{2, 8, 10, 16});
      x = "";
      for (uint64_t w = v; w; w /= base) x.insert(x.begin(), "0123456789abcdef"[w % base]);
      if (base == 2) x = r.chance(40) ? "%" + x : r.chance(50) ? "0b" + x : x + "b";
      if (base == 8) x += "q";
      if (base == 16) x = r.chance(40) ? "$" + x : r.chance(50) ? "0x" + x : "0" + x + "h";
    }
    static const char* d[] = {" db ", " dw ", "\tddb ", " DL ", " ds ", "* = ", "x_bad equ ", "ybad="};
    static const char* named[] = {"db"};  // other names of these are no errors
    bool plain = false;
    for (auto y : named) plain |= x == y;
    bool word = true;
    for (char ch : x) word &= isalnum((unsigned char)ch) || ch == '_' || ch == '.';
    int n = r.below(plain || (word && !isdigit((unsigned char)x[0]) && x[0] != '.') ? 6 : 8);
    return d[n] + x;
  }
  std::vector<std::string> aliases;
  Stmt instr(Ctx& c) {
    const auto& t = ins_table(P.cpu);
    Stmt s = st(S_INSTR);
    // pick the mnemonic class first, so that every form is met
    int i = r.below((int)t.size());
    if (!aliases.empty() && r.chance(30))
      for (int n = 0; n < 20; n++, i = r.below((int)t.size())) {
        const std::string& a = r.pick(aliases);
        if (t[i].mn == a || t[i].pat == a || !t[i].pat.compare(0, a.size() + 1, a + ",")) break;
      }
    s.sub = i;
    const Ins& in = t[i];
    s.text = in.mn;
    s.label = anylabel(c);
    switch (in.kind) {
    case IK_FIX: break;
    case IK_N8: s.e.push_back(bytev(c)); break;
    case IK_N16: s.e.push_back(ex(c, 0, 0xffff)); break;
    case IK_REL: {
      int k = r.below(100);
      if (k < 55) s.e.push_back(bin(r.chance(50) ? '+' : '-', Expr{E_STAR, 0, 0, '+', "", {}}, num(r.below(120))));
      else if (k < 75 && !c.locals.empty()) s.e.push_back(lab(r.pick(c.locals)));
      else if (!labels.empty()) s.e.push_back(lab(r.pick(labels)));
      else s.e.push_back(Expr{E_STAR, 0, 0, '+', "", {}});
      break;
    }
    case IK_ZA: s.e.push_back(r.chance(45) ? num(r.below(r.chance(50) ? 256 : 65536)) : ex(c, 0, 0xffff)); break;
    case IK_ZP: s.e.push_back(r.chance(80) || consts.empty() ? num(r.below(256)) : lab(r.pick(consts))); break;
    case IK_X8: s.e.push_back(r.chance(80) || consts.empty() ? num(r.below(256)) : lab(r.pick(consts))); break;
    case IK_D8: case IK_D8P: s.e.push_back(disp()); break;
    case IK_D8N8: s.e.push_back(disp()); s.e.push_back(bytev(c)); break;
    }
    if (o.edges && P.cpu == 7 && r.chance(15)) s.acc2 = in.mn == "and" || in.mn == "or" || in.mn == "xor" || in.mn == "cp" || in.mn == "sub";
    return s;
  }
  std::string str() {
    std::string s;
    static const char cs[] = "abcdefghijklmnopqrstuvwxyzABC0123456789 ,.;:=()+*<>!?#$%&-_'\"\\\n\t\r";
    int n = r.below(o.listcheck ? 15 : r.chance(10) ? 40 : 14);
    for (int i = 0; i < n; i++) {
      int k = r.below((int)sizeof cs);  // including the final 0
      s += cs[k];
    }
    return s;
  }
  Stmt data(Ctx& c) {
    Stmt s = st(S_DATA);
    s.sub = r.range(1, 4);
    int n = r.chance(70) ? r.range(1, 3) : r.range(1, o.listcheck ? 4 : 7);
    s.label = anylabel(c);
    if (c.macro && o.strargs && !o.listcheck && c.nparam && !c.strparam && r.chance(15)) {
      s.e.push_back(Expr());
      s.e[0].k = E_ALL;
      return s;
    }
    for (int i = 0; i < n; i++) s.e.push_back(edged(s.sub == 1 ? bytev(c) : ex(c, 0, s.sub == 4 ? 0x7fffffff : 0xffff)));
    // keep lines short
    while (s.e.size() > 1) {
      std::string t;
      for (auto& x : s.e) t += expr_text(x, 0) + ", ";
      if (t.size() < 70) break;
      s.e.pop_back();
    }
    return s;
  }
  Stmt ds(Ctx& c) {
    Stmt s = st(S_DS);
    s.label = anylabel(c);
    int k = r.below(100);
    int64_t n = o.huge && r.chance(15) ? (!P.cpu && r.chance(40) ? 65533 + r.below(9) : r.range(15000, P.cpu ? 45000 : 90000)) : o.listcheck ? r.below(18) : k < 60 ? r.below(12) : k < 90 ? r.below(70) : k < 97 ? r.below(400) : 0;
    s.e.push_back(num(n));
    if (r.chance(40)) s.e.push_back(edged(bytev(c)));
    return s;
  }
  Stmt equ(Ctx& c) {
    Stmt s = st(S_EQU);
    int k = r.below(100);
    if (k < 45 && !vars.empty() && !c.macro) {
      s.label = r.pick(vars);
      s.e.push_back(r.chance(50) ? bin('+', lab(s.label), num(1)) : num(r.below(300)));
    } else if (k < 60 && o.locals) {
      s.label = ".k" + std::to_string(r.below(3));
      s.e.push_back(num(r.below(300)));
      c.locals.push_back(s.label);
    } else if (!constlate.empty() && c.oncelabels && !c.cond) {
      s.label = constlate.back();
      constlate.pop_back();
      s.e.push_back(r.chance(60) ? num(r.below(r.chance(50) ? 256 : 65536)) : ex(c, 0, 500));
    } else {
      s.k = S_COMMENT;
      s.text = "nothing = here, 'really'";
    }
    return s;
  }
  Stmt toggle() {
    Stmt s = st(S_LISTCTL);
    static const char* t[] = {"list on", "list off", "list on", "mlist on", "mlist off", "clist on", "clist off", "ilist on", "ilist off"};
    s.text = t[r.below(9)];
    return s;
  }
  Stmt listctl() {
    Stmt s = st(S_LISTCTL);
    if (o.edges && r.chance(15)) {
      static const char* sk[] = {"skip 101", "skip 0-1", "skip 65536", "skip 100"};
      s.text = sk[r.below(4)];
      return s;
    }
    static const char* t[] = {"list on", "list off", "mlist on", "mlist off", "clist on", "clist off", "ilist on", "ilist off",
                              "skip 2", "page", "list on", "mlist on", "ilist on", "nam demo", "page 40,100", "page 0,80"};
    s.text = t[r.below(16)];
    return s;
  }
  Stmt call(Ctx& c) {
    Stmt s = st(S_CALL);
    auto& m = r.pick(macros);
    s.text = m.name;
    s.label = anylabel(c);
    int n = m.n;
    if (m.any && c.macro && !c.strparam && o.strargs && r.chance(25) && !m.str && !m.rec) {
      Expr e;
      e.k = E_ALL;
      s.e.push_back(e);
      return s;
    }
    if ((m.any || r.chance(10)) && n < 8) n += m.any ? r.below(9 - n) : 1;
    c.incall = true;
    for (int i = 0; i < n; i++) {
      int k = r.below(100);
      if (m.str == i + 1) {
        Expr e;
        e.k = E_STR;
        e.name = str();
        if (c.macro) for (char& ch : e.name) if (ch == '\\') ch = 'q';
        s.e.push_back(e);
        continue;
      }
      if (m.rec == i + 1) {
        s.e.push_back(num(r.below(6)));
        continue;
      }
      if (c.nparam && k < 40) {
        Expr e;
        e.k = E_ARG;
        e.v = r.range(1, c.nparam);
        if (e.v == c.strparam) e = num(7);
        s.e.push_back(e);
      } else if (k < 56 && !consts.empty()) s.e.push_back(lab(r.pick(consts)));
      else if (k < 66 && !labels.empty()) s.e.push_back(lab(r.pick(labels)));
      else if (k < 74 && o.strargs) s.e.push_back(un(r.chance(50) ? E_LO : E_HI, atom(c, 0, 65535)));
      else if (k < 78 && o.strargs) {
        Expr e;
        e.k = E_CHR;
        e.name = std::string(1, "aZ,;("[r.below(5)]);
        s.e.push_back(e);
      } else s.e.push_back(num(r.below(200)));
      if (s.e.back().k == E_LAB) s.e.back().style = 0;
    }
    c.incall = false;
    auto len = [&]() {
      size_t t = 0;
      for (auto& x : s.e) t += expr_text(x, 0).size() + 2;
      return t;
    };
    while ((int)s.e.size() > m.n && len() > 110) s.e.pop_back();
    for (size_t i = 0; i < s.e.size() && len() > 140; i++)
      if ((int)i + 1 != m.str) s.e[i] = num(r.below(200));
    return s;
  }
  std::vector<Stmt> block(Ctx& c, int n) {
    std::vector<Stmt> v;
    for (int i = 0; i < n && left > 0; i++) {
      left--;
      v.push_back(one(c));
      Stmt& s = v.back();
      if (o.edges && !c.macro && !c.cond && r.chance(4) && s.k != S_IF && s.k != S_MACDEF && s.text.size() < 100) s.ctl = r.range(1, 65535);
    }
    return v;
  }
  Stmt one(Ctx& c) {
    for (int tries = 0; tries < 20; tries++) {
      int k = r.below(100);
      if (k < 24 && o.instr && P.cpu) return instr(c);
      if (k < 44) return data(c);
      if (k < 48 && o.strings) {
        Stmt s = st(S_ASC);
        s.text = str();
        if (c.macro) for (char& ch : s.text) if (ch == '\\') ch = 'q';
        s.sub = r.below(2);
        if (c.macro && o.strargs && !o.listcheck && r.chance(60)) {
          Expr e;
          e.k = E_ARG;
          e.v = c.strparam;
          if (!c.strparam || r.chance(30)) {
            s.text.clear();
            for (int i = r.below(8); i > 0; i--) s.text += "abc(,;=D "[r.below(9)];
            e.style = 9;
            e.v = c.nparam ? r.range(1, c.nparam) : 0;
            int k = r.below(4);
            if (k == 0 || !e.v) e.k = E_NARG;
            else if (k == 1) e.k = E_ALL;
            else if (e.v == c.strparam) e.k = E_NARG;
          }
          s.e.push_back(e);
        }
        s.label = anylabel(c);
        return s;
      }
      if (k < 54) return ds(c);
      if (k < 57) {
        Stmt s = st(S_ALIGN);
        s.sub = r.below(2);
        s.label = anylabel(c);
        return s;
      }
      if (k < 64 && o.equs) return equ(c);
      if (k < 69 && o.orgs && !c.macro) return orgst();
      if (k < 72) {
        Stmt s = st(r.chance(50) ? S_COMMENT : S_BLANK);
        s.text = "a comment, 'with' \"quotes\" (and = more)";
        if (!c.macro && r.chance(8)) s.text += std::string(r.range(240, 246) - s.text.size(), 'c');
        return s;
      }
      if (k < 74) {
        Stmt s = st(S_LABEL);
        s.label = mklabel(c);
        if (s.label.empty()) continue;
        return s;
      }
      if (k < 78 && o.sections && !c.macro && !c.cond) {
        Stmt s = st(r.chance(50) ? S_CODE : S_DUMMY);
        c.locals.clear();
        c.nlocal = 0;
        return s;
      }
      if (k < 82 && o.ifs && c.depth < 4) {
        Stmt s = st(S_IF);
        s.sub = r.below(9);
        s.e.push_back(condv(c));
        if (s.sub < 8) s.e.push_back(r.chance(40) ? condv(c) : num(r.below(4)));
        if (o.oddifs && r.chance(30)) {
          // values below zero, registers, bits
          int what = r.below(3);
          static const char* regs[] = {"a", "b", "c", "d", "e", "h", "l", "hl", "de", "bc", "sp", "ix", "iy", "a", "x", "y", "s", "p"};
          s.e.clear();
          if (what == 1 && P.cpu != 7 && (P.cpu < 4 || P.cpu > 6)) what = 2;
          if (what) s.sub = r.below(4);
          else s.sub = r.below(8);
          for (int i = 0; i < 2; i++) {
            Expr e = num(what ? 0 : r.chance(50) ? -(int64_t)r.below(5) : r.chance(50) ? r.below(3) : -(int64_t)r.below(70000));
            if (what == 0 && !bits.empty() && r.chance(25)) {
              e.k = r.chance(50) ? E_BITNO : E_BITAD;
              e.name = r.pick(bits);
            }
            if (what == 1) {
              int x = P.cpu == 7 ? r.below(i ? 13 : 4) : r.range(13, 17);
              e.k = E_REG;
              e.v = x;
              e.name = regs[x];
            }
            if (what == 2) {
              Expr b = num(r.range(3, 4));
              e.k = E_BITREF;
              e.v = r.range(4, 5);
              e.a.push_back(b);
              if (r.chance(40) && !bits.empty()) {
                e = num(0);
                e.k = E_LAB;
                e.name = r.pick(bits);
              }
            }
            s.e.push_back(e);
          }
        }
        Ctx d = c;
        d.depth++;
        d.cond = true;
        d.toplevel = false;
        s.body = block(d, r.range(0, 4));
        if (c.macro && r.chance(30)) s.body.push_back(st(S_EXITM));
        if (r.chance(45)) {
          s.has_else = true;
          Ctx f = c;
          f.depth++;
          f.cond = true;
          f.toplevel = false;
          s.els = block(f, r.range(0, 3));
          if (c.macro && r.chance(15)) s.els.push_back(st(S_EXITM));
        }
        return s;
      }
      if (k < 90 && !macros.empty()) return call(c);
      if (k < 95 && o.includes && (!c.macro || (o.macroincludes && !multifiles.empty())) && c.depth < 5) {
        Stmt s = st(S_INCLUDE);
        if (!multifiles.empty() && (c.macro || c.inc || c.cond || ofiles.empty() || r.chance(50))) s.text = r.pick(multifiles);
        else if (!ofiles.empty() && !c.macro && !c.cond) {
          s.text = ofiles.back();
          ofiles.pop_back();
        } else continue;
        return s;
      }
      if (k < 97 && o.toggles && !c.macro && r.chance(60)) return toggle();
      if (k < 97 && o.listctl && !o.listcheck && !c.macro) return listctl();
    }
    Stmt s = st(S_DATA);
    s.sub = 1;
    s.e.push_back(num(r.below(256)));
    return s;
  }
  // a macro that calls itself with a smaller count
  Stmt recursion(const std::string& name) {
    Stmt d = st(S_MACDEF);
    d.label = name;
    Expr a;
    a.k = E_ARG;
    a.v = 1;
    auto data = [&](Expr e) {
      Stmt b = st(S_DATA);
      b.sub = 1;
      b.e = {e};
      return b;
    };
    Stmt i = st(S_IF);
    i.sub = r.chance(50) ? 5 : 2;  // greater, or different
    i.e = {a, num(0)};
    Stmt c = st(S_CALL);
    c.text = name;
    c.e = {bin('-', a, num(1))};
    c.e[0].style = 0;
    if (r.chance(50)) i.body.push_back(data(a));
    if (r.chance(50)) {  // a label of this very call
      Stmt l = st(S_LABEL);
      l.label = ".r";
      i.body.push_back(l);
    }
    i.body.push_back(c);
    if (i.body.size() > 1 && i.body[i.body.size() - 2].k == S_LABEL) {
      Stmt b = st(S_DATA);
      b.sub = 3;
      b.e = {lab(".r")};
      i.body.push_back(b);
    }
    if (r.chance(40)) i.body.push_back(data(un(E_LO, Expr{E_STAR, 0, 0, '+', "", {}})));
    if (r.chance(30)) {
      i.has_else = true;
      i.els.push_back(data(num(r.below(256))));
      if (r.chance(50)) i.els.push_back(st(S_EXITM));
    }
    d.body.push_back(i);
    if (r.chance(50)) d.body.push_back(data(a));
    return d;
  }
  Stmt macdef(const std::string& name, Mac& m) {
    Ctx c;
    c.macro = true;
    c.oncelabels = false;
    c.toplevel = false;
    c.depth = 2;
    m.name = name;
    m.n = r.chance(80) ? r.below(4) : r.range(4, 9);
    m.str = o.strargs && m.n && r.chance(25) ? r.range(1, m.n) : 0;
    m.any = o.strargs && !m.str && r.chance(25);
    m.rec = 0;
    if (o.macdefs && r.chance(15)) {
      m.n = m.rec = 1;
      m.str = 0;
      m.any = false;
      return recursion(name);
    }
    c.nparam = m.n;
    c.strparam = m.str;
    Stmt d = st(S_MACDEF);
    d.label = name;
    d.body = block(c, r.range(0, 6));
    flush(c, d.body);
    if (r.chance(12)) d.body.insert(d.body.begin() + (r.chance(50) ? d.body.size() : r.below((int)d.body.size() + 1)), st(S_EXITM));
    return d;
  }
  Program go() {
    P.cpu = o.cpu >= 0 ? o.cpu : (r.chance(25) ? 0 : r.range(1, 7));
    P.simple_layout = !o.layout;
    P.huge = o.huge || o.flood > 5000 || o.warnflood > 5000;
    P.out = r.below(3);
    left = r.range(o.minst, o.maxst);
    if (o.big && r.chance(30)) left *= 6;
    if (o.nstyle == 1)
      for (int i = r.chance(70) ? r.range(6, 34) : r.range(28, 34); i > 0; i--) common += "LabelName_Common.x7"[common.empty() ? r.below(5) : r.below(19)];
    int nl = o.many ? r.range(90, 460) : r.range(0, left / 3 + 2);
    for (int i = 0; i < nl; i++) {
      static const char* stems[] = {"lab", "Start_", "loop", "x_", "Data.", "q", "_u", "zz"};
      std::string n = std::string(stems[r.below(8)]) + std::to_string(i) + (r.chance(5) ? "_a_rather_long_name_label" : "") + "_";
      labels.push_back(name(n));
    }
    unplaced = labels;
    if (o.equs) {
      int nc = r.below(5);
      for (int i = 0; i < nc; i++) consts.push_back(name("cst_" + std::to_string(i)));
      int nv = r.below(3);
      for (int i = 0; i < nv; i++) vars.push_back(name("var_" + std::to_string(i)));
      int nb = o.bits ? r.below(3) : 0;
      for (int i = 0; i < nb; i++) bits.push_back(name("flag_" + std::to_string(i)));
    }
    std::vector<Stmt>& v = P.main;
    if (o.listcheck || o.page >= 0) {
      Stmt s = st(S_LISTCTL);
      s.text = o.page >= 0 ? "page " + std::to_string(o.page) + ",600" : "page 0,200";
      v.push_back(s);
      s = st(S_LISTCTL);
      s.text = "ilist on";
      if (!o.toggles || r.chance(60)) v.push_back(s);
    }
    if (P.cpu) {
      Stmt s = st(S_CPU);
      s.text = cpuname[P.cpu];
      v.push_back(s);
    }
    if (P.out) {
      Stmt s = st(S_OUTPUT);
      for (int i = r.chance(15) ? r.range(1, 2) : 0; i--;) s.sub = r.range(1, 2), v.push_back(s), s = st(S_OUTPUT);
      s.sub = P.out;  // the last one counts
      v.push_back(s);
    }
    if (o.alias) {
      static const char* regs[] = {"a", "b", "c", "d", "e", "h", "l", "hl", "de", "bc", "sp", "ix", "iy"};
      static const char* mns[] = {"db", "dw", "ddb", "dl", "ds", "asc"};
      auto add = [&](const std::string& what, bool reg) {
        Stmt s = st(S_ALIAS);
        s.text = what;
        s.label = (reg ? "rg_" : "mn_") + what;
        s.sub = reg;
        for (auto& x : v) if (x.k == S_ALIAS && x.label == s.label) return;
        v.push_back(s);
        aliases.push_back(what);
      };
      if (P.cpu == 7) for (int i = r.range(1, 5); i--;) add(regs[r.below(13)], true);
      if (P.cpu >= 4 && P.cpu <= 6) add("a", true);
      if (P.cpu) for (int i = r.range(0, 3); i--;) add(ins_table(P.cpu)[r.below((int)ins_table(P.cpu).size())].mn, false);
      for (int i = r.range(0, 2); i--;) add(mns[r.below(6)], false);
    }
    for (auto& n : consts) {
      if (r.chance(70)) {
        Stmt s = st(S_EQU);
        s.label = n;
        s.e.push_back(num(r.below(r.chance(60) ? 256 : 65536)));
        v.push_back(s);
      } else constlate.push_back(n);
    }
    for (auto& n : vars) {
      Stmt s = st(S_EQU);
      s.label = n;
      s.e.push_back(num(r.below(4)));
      v.push_back(s);
    }
    for (auto& n : bits) {
      Stmt s = st(S_EQU);
      s.label = n;
      Expr e;
      e.k = E_BITREF;
      e.v = r.below(32);
      e.a = {num(r.chance(40) ? r.below(3) : r.below(65536))};
      s.e.push_back(e);
      v.push_back(s);
    }
    if (!r.chance(3)) v.push_back(orgst()), v.back().e[0] = num(v.back().e[0].k == E_NUM ? v.back().e[0].v : 0x1000);
    // files used many times: no labels of their own
    if (o.includes) {
      int nm = r.below(3);
      for (int i = 0; i < nm; i++) {
        Ctx c;
        c.inc = true;
        c.oncelabels = false;
        c.depth = 2;
        std::string n = "m" + std::to_string(i) + ".inc";
        auto b = block(c, o.emptyincs ? r.range(0, 5) : r.range(1, 5));
        if (o.incexitm && r.chance(60)) {
          Stmt x = st(S_EXITM);
          if (r.chance(50)) {
            Stmt f = st(S_IF);
            f.sub = 8;
            f.e.push_back(num(r.below(2)));
            f.body.push_back(x);
            x = f;
          }
          b.insert(b.begin() + r.below((int)b.size() + 1), x);
        }
        P.incs.push_back({n, b});
        multifiles.push_back(n);
      }
      if (o.deepincs) {
        int nd = r.range(2, 5);
        for (int i = nd; i >= 0; i--) {
          Ctx c;
          c.inc = true;
          c.oncelabels = false;
          c.depth = 5;
          std::string n = "d" + std::to_string(i) + ".inc";
          auto b = block(c, r.range(0, 2));
          if (i < nd) {
            Stmt x = st(S_INCLUDE);
            x.text = "d" + std::to_string(i + 1) + ".inc";
            b.insert(b.begin() + r.below((int)b.size() + 1), x);
          }
          P.incs.push_back({n, b});
        }
        multifiles.push_back("d0.inc");
      }
      int no = r.below(3);
      for (int i = 0; i < no; i++) {
        Ctx c;
        c.inc = true;
        c.depth = 1;
        c.incname = "o" + std::to_string(i) + ".inc";
        auto b = block(c, r.range(1, 8));
        P.incs.push_back({c.incname, b});
        ofiles.push_back(c.incname);
      }
    }
    if (o.macros) {
      int nm = r.below(4);
      for (int i = 0; i < nm; i++) {
        Mac m;
        Stmt d = macdef(name("mac_" + std::to_string(i)), m);
        if (o.macdefs && r.chance(30)) {
          // inside a branch, or in an include of its own
          if (r.chance(50)) {
            Stmt f = st(S_IF);
            f.sub = 8;
            f.e.push_back(num(r.below(2)));
            f.has_else = true;
            Mac m2 = m;
            Stmt d2 = st(S_MACDEF);
            d2.label = d.label;
            Ctx c;
            c.macro = true;
            c.oncelabels = c.toplevel = false;
            c.depth = 2;
            c.nparam = m2.n;
            c.strparam = m2.str;
            d2.body = block(c, r.range(0, 3));
            flush(c, d2.body);
            bool first = f.e[0].v != 0;
            f.body.push_back(first ? d : d2);
            f.els.push_back(first ? d2 : d);
            v.push_back(f);
          } else if (o.includes) {
            std::string n = "mac" + std::to_string(i) + ".inc";
            P.incs.push_back({n, {d}});
            Stmt x = st(S_INCLUDE);
            x.text = n;
            v.push_back(x);
          } else v.push_back(d);
        } else v.push_back(d);
        macros.push_back(m);
      }
    }
    Ctx c;
    while (left > 0) {
      left--;
      Stmt s = one(c);
      if (s.k == S_CODE || s.k == S_DUMMY) flush(c, v);
      v.push_back(s);
    }
    flush(c, v);
    for (auto& n : ofiles) {
      Stmt s = st(S_INCLUDE);
      s.text = n;
      v.push_back(s);
    }
    left = 5;
    for (auto& n : constlate) {
      Stmt s = st(S_EQU);
      s.label = n;
      s.e.push_back(num(r.below(500)));
      v.push_back(s);
    }
    for (auto& n : unplaced) {
      Stmt s = st(r.chance(50) ? S_LABEL : S_DATA);
      s.label = n;
      if (s.k == S_DATA) {
        s.sub = o.many ? r.range(2, 3) : 1;
        s.e.push_back(o.many ? lab(r.pick(labels)) : num(r.below(256)));
      }
      v.push_back(s);
    }
    if (o.segs) segments(v);
    for (int i = 0; i < o.warnflood; i++) {
      Stmt s = st(S_DATA);
      s.sub = 1;
      s.fmt = 0;
      s.e.push_back(num(300 + i));
      v.push_back(s);
    }
    if (o.nerrors) errors();
    return P;
  }
  // an instruction the CPU does not have: its text, and the bytes it reserves nevertheless
  std::pair<std::string, int> badmode() {
    typedef std::pair<std::string, int> B;
    int cpu = P.cpu;
    if (r.chance(10)) return cpu <= 3 ? B{"inc 256,x", 2} : cpu < 7 ? B{"stx 256,y", 0} : r.pick(std::vector<B>{{"bit 8,a", 0}, {"im 3", 2}, {"rst 57", 1}, {"set 0-1,b", 0}, {"rst 65544", 1}});
    auto& t = ins_table(cpu);
    for (int tries = 0; tries < 50; tries++) {
      auto &a = r.pick(t), &b = r.pick(t);
      std::string m = a.mn, p = b.pat;
      auto has = [&](const std::string& q) {
        for (auto& x : t)
          if (x.mn == m && x.pat == q) return true;
        return false;
      };
      bool single = true, rel = false;
      for (auto& x : t)
        if (x.mn == m) single &= x.pat.empty(), rel |= x.kind == IK_REL;
      if (has(p)) continue;
      int n = single ? a.pre.size() : 0;
      if (cpu <= 3) {
        if (!single && p == "#%" && !rel) n = 2;
      } else if (cpu < 7) {
        if (p.empty() ? has("a") : p == "a" ? has("") : p == "(%)" ? rel : m == "jmp" && p[0] == '@') continue;
        if (cpu < 6)
          for (auto& x : ins_table(6))
            if (x.mn == m && (x.pat == p || (p.empty() && x.pat == "a"))) n = x.kind == IK_FIX ? 1 : x.kind == IK_N16 ? 3 : 2;
        if (cpu == 4 && m == "ror") continue;
      } else {
        if (!p.empty() && p.find_first_not_of("0123456789") == std::string::npos) continue;
        if (!p.compare(0, 2, "a,") && has(p.substr(2))) continue;
        if ((p == "(ix)" || p == "(iy)") && has("(" + p.substr(1, 2) + "&)")) continue;
        if (p == "(%),a" && (m == "bit" || m == "res" || m == "set")) continue;
        if (m == "rst" && p == "%") continue;
        static const std::vector<std::string> cond{"nz", "z", "nc", "po", "pe", "p", "m"};
        if (m != "ret" && ((!rel && m != "jp" && m != "call") || p.find(',') == std::string::npos) && std::count(cond.begin(), cond.end(), p.substr(0, p.find(',')))) continue;  // a label?
        if (m == "im" && p == "%") n = 2;
        if (m == "ex" && p == "hl,de") continue;
      }
      std::string x = m + (p.empty() ? "" : " ");
      for (char c : p) {
        if (c == '%') x += std::to_string(r.range(5, 100));
        else if (c == '&') x += r.chance(50) ? "+5" : "-7";
        else x += c;
      }
      return {x, n};
    }
    return {"nop 5", 1};
  }
  // local labels of one name in many sections
  void segments(std::vector<Stmt>& v) {
    bool call = o.macros && r.chance(60), code = !call || r.chance(40);
    auto use = [&](int n) {
      for (int i = 0; i < n; i++) {
        Stmt s = st(S_CODE);
        v.push_back(s);
        int k = r.below(3);  // label after, before and between its uses
        for (int j = 0; j < 3; j++) {
          s = st(S_DATA);
          s.sub = j == k ? 1 : 3;
          if (j == k) s.label = ".seg";
          s.e.push_back(j == k ? num(r.below(256)) : lab(".seg"));
          v.push_back(s);
        }
      }
    };
    std::string n = name("seg_");
    if (call) {
      Stmt d = st(S_MACDEF);
      d.label = n;
      if (r.chance(50) && o.segs < 5000) {
        Stmt b = st(S_LABEL);
        b.label = r.chance(50) ? ".seg" : ".other";
        d.body.push_back(b);
      }
      v.push_back(d);
    }
    use(r.range(1, 5));
    for (int i = 0; i < o.segs; i++) {
      Stmt s = st(call && (!code || r.chance(50)) ? S_CALL : r.chance(80) ? S_CODE : S_DUMMY);
      if (s.k == S_CALL) s.text = n;
      v.push_back(s);
    }
    use(r.range(1, 5));
  }
  void errors() {
    for (int i = 0; i < o.nerrors; i++) {
      std::vector<std::vector<Stmt>*> ls;
      stmt_lists(P, ls);
      // choose a list, then a position after the preamble
      auto* l = ls[r.below((int)ls.size())];
      if (r.chance(50)) l = &P.main;
      Stmt s = st(S_ERR);
      bool top = l == &P.main;
      for (auto& x : P.incs) if (l == &x.second) top = false;
      int k = r.below(ERR_NUM);
      s.sub = k;
      switch (k) {
      case ERR_UNKNOWN: s.text = r.chance(30) ? "\tfrobnicate" : r.chance(50) ? "   frobnicate" : " frobz 12"; break;
      case ERR_MALFORMED: {
        static const char* t[] = {"9bad db 1", "b@d = 5", "* = 12{3}", "* db 1", "*: nop_", "a-b = 2"};
        s.text = t[r.chance(50) ? r.below(2) : r.below(6)];
        break;
      }
      case ERR_FAIL: s.text = r.chance(50) ? " fail" : " FAIL out of luck"; break;
      case ERR_REDEF:
        s.text = "lab_dup db 1";
        if (r.chance(25)) {
          static const char* kw[] = {"db = 5", "dl = $12", "dw = 0", "Align = 3", "FAIL = 7", "equ = 1"};
          s.text = kw[r.below(6)];
        } else {
          bool have = false, equ = r.chance(35);
          for (auto& x : P.main)
            if ((x.k == S_LABEL || x.k == S_EQU) && x.label == "lab_dup") {
              have = true;
              equ = x.k == S_EQU;
            }
          if (!equ && r.chance(35)) s.text = r.chance(50) ? "lab_dup = 9" : "Lab_Dup equ 2";
          if (!have) {
            Stmt d = st(equ ? S_EQU : S_LABEL);
            d.label = "lab_dup";
            if (equ) d.e.push_back(num(r.below(300)));
            size_t at = 0;
            while (at < P.main.size() && P.main[at].k != S_ORG) at++;
            if (at >= P.main.size()) { s.text = "   frobnicate"; s.sub = ERR_UNKNOWN; break; }
            auto* body = l;
            bool moved = l == &P.main;
            (void)moved;
            (void)body;
            // inserting may move lists of nested statements: find the list again afterwards
            size_t idx = 0;
            for (size_t q = 0; q < ls.size(); q++) if (ls[q] == l) idx = q;
            P.main.insert(P.main.begin() + at + 1, d);
            ls.clear();
            stmt_lists(P, ls);
            if (idx < ls.size()) l = ls[idx];
          }
        }
        break;
      case ERR_NOINCLUDE: s.text = " include nosuch.inc"; break;
      case ERR_UNDEFEQU: s.text = "undef_" + std::to_string(s.id) + " = never_defined_" + std::to_string(r.below(3)); break;
      case ERR_NOOPER: s.text = r.chance(50) ? " db" : " dw ; nothing"; break;
      case ERR_TOOMANY:
        if (macros.empty()) { s.text = " frobz 12"; s.sub = ERR_UNKNOWN; }
        else s.text = " " + macros[0].name + " 1,2,3,4,5,6,7,8,9,10,11";
        break;
      case ERR_BADMODE:
        if (!P.cpu) { s.text = " frobz 12"; s.sub = ERR_UNKNOWN; }
        else {
          auto b = badmode();
          s.text = " " + b.first;
          s.e.push_back(num(b.second));
        }
        break;
      case ERR_ELSE:
        if (!top) { s.text = " fail"; s.sub = ERR_FAIL; }
        else s.text = r.chance(50) ? " else" : " endc";
        break;
      case ERR_LONGBRANCH:
        if (!P.cpu) { s.text = " frobz 12"; s.sub = ERR_UNKNOWN; }
        else s.text = P.cpu == 7 ? " jr *+500" : " beq *+500";
        break;
      case ERR_TOOLONG: {
        bool infile = l == &P.main;
        for (auto& x : P.incs) infile |= l == &x.second;
        if (!infile) { s.text = " frobz 12"; s.sub = ERR_UNKNOWN; break; }
        static const char* head[] = {" db 1 ;", " nop ; ", ";", " asc \"", "  ; note "};
        static const char* tail[] = {" db 1", "x db 2,3", "", " endc", ", 5", "lab_t"};
        s.text = head[r.below(5)];
        s.text += std::string(std::max<int>(0, r.range(240, 252) - (int)s.text.size()), r.chance(50) ? 'x' : ' ') + tail[r.below(6)];
        while (s.text.size() < 250) s.text += 'y';
        if (r.chance(30)) s.text += std::string(r.range(0, 600), 'z');
        break;
      }
      case ERR_NOORG: {
        static const char* t[] = {" db 1", " ddb $1234", " dw 5", "lab_n db 1", " asc \"abc\"", " dl 7,8", "lab_o", " ddb 1,2"};
        s.text = t[r.below(8)];
        size_t q = 0;
        while (q < P.main.size() && P.main[q].k != S_ORG) q++;
        if (q < P.main.size()) {
          size_t a = 0;
          for (size_t j = 0; j < q; j++) if (P.main[j].k == S_CPU) a = j + 1;
          P.main.insert(P.main.begin() + r.range((int)a, (int)q), s);
          continue;
        }
        s.text = " frobz 12";
        s.sub = ERR_UNKNOWN;
        break;
      }
      case ERR_MISSING: {
        // missing, superfluous or impossible operands of pseudo-operations; with the bytes that precede the error
        static const struct { const char* t; int n; } t[] = {
            {" nam", 0}, {" NAM ; title", 0}, {" asc", 0}, {" asc abc", 0}, {" ds", 0}, {" ds -1", 0}, {" ds 0-1", 0},
            {" ds $80000000", 0}, {" dl", 0}, {" ddb", 0}, {" dw", 0}, {" db 1,", 1}, {" db ,1", 0}, {" db 1,,2", 1},
            {" dw 1,", 2}, {" dl 1,", 4}, {" ddb 1,,", 2}, {" include", 0}, {" include \"", 0}, {" list", 0},
            {" list maybe", 0}, {" mlist", 0}, {" clist 1", 0}, {" ilist onoff", 0}, {" mlist on off", 0}, {" page 1", 0},
            {" page 5,80", 0}, {" page 300,80", 0}, {" page 201,80", 0}, {" page 9,80", 0}, {" page 66,20", 0},
            {" page 66,38", 0}, {" page 66,3000", 0}, {" page ,", 0}, {" page 66,", 0}, {" skip", 0}, {" output foo", 0},
            {" output", 0}, {" align", 0}, {" align 2", 0}, {" align even,odd", 0}, {"equ_@ equ", 0}, {"equ_@ =", 0},
            {" code 1", 0}, {" dummy x", 0}, {"lab_@ list on", 0}, {"lab_@ nam foo", 0}, {"lab_@ page", 0},
            {"lab_@ skip 1", 0}, {"lab_@ fail", 0}, {"lab_@ code", 0}, {"lab_@ output hex", 0},
            {" nam 1234567890123456789012345678901234567890", 0}, {"* =", 0}, {"*", 0}, {" asc \"ab", 2},
            {" asc 'ab", 2}, {" asc \"ab\\q\"", 2}, {" asc \"ab\"x", 2}, {" ds 1,2,3", 0}, {" ds 3,", 0}, {" ds ,3", 0},
            {" cpu", 0}, {" cpu nosuch", 0}, {" cpu 6502", 0}, {" cpu z80 x", 0}};
        const int nt = sizeof t / sizeof *t;
        int q = r.below(nt - (P.cpu ? 0 : 4));
        s.text = t[q].t;
        size_t a = s.text.find('@');
        if (a != std::string::npos) s.text = s.text.substr(0, a) + std::to_string(s.id) + s.text.substr(a + 1);
        // backslashes mean parameters within macros
        bool infile = l == &P.main;
        for (auto& x : P.incs) infile |= l == &x.second;
        if (!infile && s.text.find('\\') != std::string::npos) { s.text = " asc abc"; s.e.push_back(num(0)); break; }
        s.e.push_back(num(t[q].n));
        break;
      }
      case ERR_BADEXPR: {
        bool infile = l == &P.main;
        for (auto& x : P.incs) infile |= l == &x.second;
        s.text = badexpr(infile);
        break;
      }
      }
      size_t lo = 0;
      if (l == &P.main) while (lo < l->size() && (*l)[lo].k != S_ORG) lo++;
      if (l == &P.main && s.sub == ERR_REDEF)
        for (size_t q = lo; q < l->size(); q++) if ((*l)[q].label == "lab_dup") lo = q + 1;
      size_t at = lo + (l->size() > lo ? r.below((int)(l->size() - lo) + 1) : 0);
      if (at > l->size()) at = l->size();
      // a call of a macro that is not yet defined is another error: stay behind the definitions
      if (s.sub == ERR_TOOMANY && l == &P.main) at = l->size();
      int copies = i == 0 && o.flood && s.sub != ERR_ELSE && s.sub != ERR_TOOLONG ? o.flood : 1;
      std::vector<Stmt> f;
      for (int n = 0; n < copies; n++) {
        f.push_back(s);
        s.id = nextid++;
      }
      l->insert(l->begin() + at, f.begin(), f.end());
    }
  }
};
}  // namespace

int floodsize(Rng& r, bool huge) {
  if (huge && r.chance(1)) return r.range(65533, 65538);
  static const int n[] = {2, 3, 9, 10, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513};
  return n[r.below(17)];
}
GenOpt swarm(Rng& r) {
  GenOpt o;
  o.includes = r.chance(60);
  o.macros = r.chance(60);
  o.ifs = r.chance(60);
  o.oddifs = r.chance(25);
  o.sections = r.chance(40);
  o.orgs = r.chance(60);
  o.alias = r.chance(20);
  o.chrs = r.chance(25);
  o.listctl = r.chance(30);
  o.bits = r.chance(50);
  o.warnings = r.chance(60);
  o.layout = r.chance(60);
  o.strings = r.chance(60);
  o.instr = r.chance(75);
  o.equs = r.chance(75);
  o.locals = r.chance(60);
  o.macroincludes = r.chance(50);
  o.nstyle = r.chance(70) ? 0 : r.range(1, 2);
  o.minpar = r.chance(60);
  o.strargs = r.chance(50);
  o.macdefs = r.chance(40);
  switch (r.below(6)) {
  case 0: o.minst = 1; o.maxst = 5; break;
  case 1: case 2: o.minst = 4; o.maxst = 16; break;
  case 3: case 4: o.minst = 10; o.maxst = 40; break;
  default: o.minst = 30; o.maxst = 80; break;
  }
  return o;
}

Program gen_program(Rng& r, const GenOpt& o) {
  for (int i = 0; i < 6; i++) {
    Gen g(r, o);
    Program p = g.go();
    repair(p, {});
    Model m = run_model(p);
    if (m.fatal || !m.phase.empty()) continue;
    // place some blocks exactly at the end of others, where records meet
    if (o.orgs && m.errs.empty() && r.chance(40)) {
      std::vector<int64_t> ends;
      for (size_t k = 0; k + 1 < m.em.size(); k++)
        if (m.em[k].addr + 1 != m.em[k + 1].addr) ends.push_back(m.em[k].addr + 1);
      if (!m.em.empty()) ends.push_back(m.em.back().addr + 1);
      std::vector<std::vector<Stmt>*> ls;
      stmt_lists(p, ls);
      Program q = p;
      ls.clear();
      stmt_lists(q, ls);
      bool ch = false;
      for (auto* l : ls)
        for (auto& s : *l)
          if (s.k == S_ORG && !s.dead && s.e[0].k == E_NUM && !ends.empty() && r.chance(35)) {
            s.e[0].v = ends[r.below((int)ends.size())];
            if (q.cpu && s.e[0].v > 0xffff) s.e[0].v = 0x100;
            ch = true;
          }
      if (ch) {
        repair(q, {});
        Model m2 = run_model(q);
        if (!m2.fatal && m2.phase.empty()) p = q;
      }
    }
    if (o.longfile) {
      std::vector<std::pair<std::vector<Stmt>*, int>> where = {{&p.main, 2}};
      for (auto& x : p.incs) where.push_back({&x.second, 1});
      auto* l = where[r.below((int)where.size() * 2 - 1) % where.size()].first;
      Stmt b;
      int id = 1 << 20;
      std::vector<Stmt> f;
      for (int n = 0; n < o.longfile; n++) {
        b.k = n % 64 ? S_BLANK : S_COMMENT;
        b.id = id++;
        b.fmt = n % 64 ? 1 : 0;
        b.text = n % 64 ? "" : "x";
        f.push_back(b);
      }
      p.huge = true;  // for the model
      l->insert(l->begin() + (r.chance(60) ? 0 : r.below((int)l->size() + 1)), f.begin(), f.end());
    }
    render(p);
    return p;
  }
  // something simple that always works
  Program p;
  Rng z(r.next());
  GenOpt s;
  s.minst = 1;
  s.maxst = 3;
  s.includes = s.macros = s.ifs = s.sections = s.equs = false;
  Gen g(z, s);
  p = g.go();
  repair(p, {});
  render(p);
  return p;
}
