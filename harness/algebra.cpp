// C13: building expressions with the overloaded operators: a named operand is copied, a moved one is consumed, the
// results are independent, the parent links are right (also for x += x).  A short history over a pool of expressions.
#include "gen.h"
using namespace tomsolver;
using namespace ref;

static const MathOperator BOPS[] = {MathOperator::MATH_ADD, MathOperator::MATH_SUB, MathOperator::MATH_MULTIPLY, MathOperator::MATH_DIVIDE, MathOperator::MATH_POWER};

template <typename A, typename B>
static Node binary(int o, A &&a, B &&b) {
    switch (o) {
    case 0: return std::forward<A>(a) + std::forward<B>(b);
    case 1: return std::forward<A>(a) - std::forward<B>(b);
    case 2: return std::forward<A>(a) * std::forward<B>(b);
    case 3: return std::forward<A>(a) / std::forward<B>(b);
    default: return std::forward<A>(a) ^ std::forward<B>(b);
    }
}
template <typename B>
static Node &assign(int o, Node &a, B &&b) {
    switch (o) {
    case 0: return a += std::forward<B>(b);
    case 1: return a -= std::forward<B>(b);
    case 2: return a *= std::forward<B>(b);
    case 3: return a /= std::forward<B>(b);
    default: return a ^= std::forward<B>(b);
    }
}
template <typename A>
static Node unary(int o, A &&a) {
    switch (o) {
    case 0: return +std::forward<A>(a);
    case 1: return -std::forward<A>(a);
    case 2: return sin(std::forward<A>(a));
    case 3: return cos(std::forward<A>(a));
    case 4: return tan(std::forward<A>(a));
    case 5: return asin(std::forward<A>(a));
    case 6: return acos(std::forward<A>(a));
    case 7: return atan(std::forward<A>(a));
    case 8: return sqrt(std::forward<A>(a));
    case 9: return log(std::forward<A>(a));
    case 10: return log2(std::forward<A>(a));
    case 11: return log10(std::forward<A>(a));
    default: return exp(std::forward<A>(a));
    }
}
using Impl = std::remove_reference<decltype(*std::declval<Node &>())>::type;
static const int P = 3;
static Node pool[P];
static R *model[P];
static void checkAll() {
    for (int i = 0; i < P; i++) {
        if (!model[i]) {
            tsx_check(pool[i] == nullptr, "a consumed operand is empty");
            continue;
        }
        tsx_check(pool[i] != nullptr, "a named operand is kept");
        pool[i]->CheckParent();
        tsx_check(pool[i]->Equal(build(model[i])), "every expression is what the history says");
    }
}

extern "C" void harness_main() {
    Gen g;
    g.vars = 1;
    g.numbers = tsx_param("nums", 0);
    for (int i = 0; i < 2; i++) {
        model[i] = i == 0 ? g.tree(tsx_param("ops", 1)) : g.tree(0);
        pool[i] = build(model[i]);
    }
    model[2] = nullptr;
    int steps = tsx_param("steps", 2), allops = tsx_param("allops", 0), first = tsx_param("first", -1);
    for (int s = 0; s < steps; s++) {
        int act = s == 0 && first >= 0 ? first : tsx_choice("action", 13);
        int i = tsx_choice("target", P), j = tsx_choice("left", P);
        if (!model[j]) { tsx_outside("an empty expression as an operand"); return; }
        bool two = act <= 5;
        int k = two ? tsx_choice("right", P) : j;
        if (!model[k]) { tsx_outside("an empty expression as an operand"); return; }
        // target i = j o k; for the compound assignments j is the target
        int o = act <= 5 ? (allops ? tsx_choice("operator", 5) : tsx_param("o", s % 5)) : act == 6 || act == 7 ? (allops ? tsx_choice("function", 13) : tsx_param("f", 1 + s)) : 0;
        R *r;
        switch (act) {
        case 0: r = bin(BOPS[o], model[j], model[k]); pool[i] = binary(o, pool[j], pool[k]); model[i] = r; break;
        case 1:
            if (j == k) { tsx_outside("the same expression moved and used"); return; }
            r = bin(BOPS[o], model[j], model[k]);
            model[j] = nullptr;
            pool[i] = binary(o, Move(pool[j]), pool[k]);
            model[i] = r;
            break;
        case 2:
            if (j == k) { tsx_outside("the same expression moved and used"); return; }
            r = bin(BOPS[o], model[j], model[k]);
            model[k] = nullptr;
            pool[i] = binary(o, pool[j], std::move(pool[k]));
            model[i] = r;
            break;
        case 3:
            if (j == k) { tsx_outside("the same expression moved and used"); return; }
            r = bin(BOPS[o], model[j], model[k]);
            model[j] = model[k] = nullptr;
            pool[i] = binary(o, std::move(pool[j]), Move(pool[k]));
            model[i] = r;
            break;
        case 4: {
            if (i) { tsx_outside("the target of a compound assignment is its left operand"); return; }
            r = bin(BOPS[o], model[j], model[k]);
            Node &back = assign(o, pool[j], pool[k]);
            tsx_check(&back == &pool[j], "a compound assignment yields its target");
            model[j] = r;
            break;
        }
        case 5:
            if (i || j == k) { tsx_outside("the target of a compound assignment is its left operand"); return; }
            r = bin(BOPS[o], model[j], model[k]);
            model[k] = nullptr;
            assign(o, pool[j], Move(pool[k]));
            model[j] = r;
            break;
        case 6: r = un((MathOperator)(FIRST_UNARY + o), model[j]); pool[i] = unary(o, pool[j]); model[i] = r; break;
        case 7:
            r = un((MathOperator)(FIRST_UNARY + o), model[j]);
            model[j] = nullptr;
            pool[i] = unary(o, Move(pool[j]));
            model[i] = r;
            break;
        case 8: r = model[j]; pool[i] = Clone(pool[j]); model[i] = r; break;
        // the contents of one expression given to another
        case 9:
            if (!model[i]) { tsx_outside("an empty expression as a target"); return; }
            *pool[i] = *pool[j];
            model[i] = model[j];
            break;
        case 10:
            if (!model[i] || i == j) { tsx_outside("an empty expression as a target"); return; }
            *pool[i] = std::move(*pool[j]);
            model[i] = model[j];
            pool[j] = nullptr;
            model[j] = nullptr;
            break;
        case 11: r = model[j]; pool[i] = std::make_unique<Impl>(*pool[j]); model[i] = r; break;
        default: {
            r = model[j];
            auto fresh = std::make_unique<Impl>(std::move(*pool[j]));
            pool[j] = nullptr;
            model[j] = nullptr;
            pool[i] = std::move(fresh);
            model[i] = r;
        }
        }
        checkAll();
    }
    // evaluating or destroying one expression leaves the others alone
    int d = tsx_choice("destroyed", P);
    pool[d] = nullptr;
    model[d] = nullptr;
    checkAll();
    tsx_cover("history");
}
