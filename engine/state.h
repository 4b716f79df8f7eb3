#pragma once
#include "expr.h"
#include <memory>
#include <map>
#include <set>
#include <functional>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>

struct Val
{
    E e = nullptr;              // symbolic value (floats are always expressions)
    uint64_t c = 0;             // concrete integer / pointer when e == nullptr
    std::shared_ptr<std::vector<Val>> agg;
    Val() {}
    explicit Val(uint64_t v) : c(v) {}
    explicit Val(E x) : e(x) { if (x->k == K_CONST) { c = x->c; e = nullptr; } }
    bool conc() const { return !e && !agg; }
};

struct Obj
{
    uint64_t size = 0;
    bool freed = false, readonly = false;
    uint8_t kind = 0;           // 0 heap(malloc) 1 heap(new) 2 heap(new[]) 3 stack 4 global 5 function 6 exception
    std::string name;
    std::vector<uint8_t> bytes;
    std::vector<uint8_t> tag;   // 0 uninitialised, 1 concrete, 2 start of a symbolic cell, 3 continuation of one
    std::map<uint32_t, E> sym;  // symbolic cells by start offset (size = width/8)
};

struct Chunk { std::shared_ptr<Obj> o[64]; };

constexpr int ADDR_SHIFT = 24;

struct Memory
{
    std::vector<std::shared_ptr<Chunk>> chunks;
    uint64_t count = 1;         // object 0 is never used: addresses below 2^24 are invalid
    Obj* get(uint64_t id) const
    {
        if (id >= count || (id >> 6) >= chunks.size() || !chunks[id >> 6]) return nullptr;
        return chunks[id >> 6]->o[id & 63].get();
    }
    Obj* writable(uint64_t id)
    {
        auto& ch = chunks[id >> 6];
        if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch);
        auto& o = ch->o[id & 63];
        if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
        return o.get();
    }
    uint64_t add(std::shared_ptr<Obj> o)
    {
        uint64_t id = count;
        count += 1 + (o->size >> ADDR_SHIFT);
        while (chunks.size() <= (count >> 6)) chunks.push_back(std::make_shared<Chunk>());
        auto& ch = chunks[id >> 6];
        if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch);
        ch->o[id & 63] = std::move(o);
        return id << ADDR_SHIFT;
    }
};

struct Opnd { int reg = -1; Val v; };

struct PInst
{
    const llvm::Instruction* I;
    unsigned op;
    int dst = -1;
    std::vector<Opnd> ops;
    unsigned w = 0;                                        // result width (integers), or operand width where relevant
    bool repo = false;                                     // belongs to the code under test
    int64_t gepConst = 0;
    std::vector<std::pair<int, int64_t>> gepVar;           // operand index, scale
    int t0 = -1, t1 = -1;                                  // successors
};
struct PBlock
{
    std::vector<PInst> phis, insts;
    std::vector<std::vector<std::pair<int, int>>> x;
};
struct PFunc
{
    const llvm::Function* F;
    std::string name, file;
    int nregs = 0;
    std::vector<PBlock> blocks;
    std::vector<std::map<int, std::vector<Opnd>>> phiIn;   // block -> pred -> operands
    bool repo = false;
    uint64_t calls = 0;
};

struct Frame
{
    PFunc* f;
    std::vector<Val> regs;
    int bb = 0;
    unsigned pc = 0;
    std::vector<uint64_t> allocas;
    std::vector<Val> varargs;
};

struct Thread
{
    std::vector<Frame> stack;
    int status = 0;             // 0 runnable, 1 waiting for join of `target`, 2 finished, 3 sleeping (must yield)
    int target = -1;
    uint64_t mutex = 0;         // status 4: waits for this mutex
    uint64_t steps = 0;         // instructions since last progress mark
};

struct Input { std::string name; E e; int kind; long lo, hi; }; // kind 0 float, 1 int, 2 choice (concrete in e)
struct Obs { std::string name; E e; };

struct ExcInfo { uint64_t obj; uint64_t ti; uint64_t dtor; int handlers = 0; };

struct State
{
    Memory mem;
    std::vector<Thread> threads;
    std::map<uint64_t, std::pair<int, int>> mutexes;    // address -> owner, depth
    int cur = 0;
    std::vector<E> pc;
    std::set<E> pcset;
    std::vector<Input> inputs;
    std::vector<Obs> obs;
    std::vector<ExcInfo> excStack;   // in flight / caught
    std::map<std::string, int> counters;
    std::vector<std::string> reached;
    std::vector<std::string> notes;
    uint64_t steps = 0;
    int depth = 0;
    uint64_t rngCount = 0;
    int switches = 0, turn = 0, turns = 0;     // preemptions; turns of threads once they are used up
    uint64_t clockOffset = 0;
    bool lenient = false;            // some constraint on this path was not confirmed satisfiable
};
