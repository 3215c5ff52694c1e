// Single-threaded dispatcher on top of the repository's HsmEventDispatcherBase: events are pumped by the harness.
#pragma once
#include <map>
#include <memory>
#include "hsmcpp/HsmEventDispatcherBase.hpp"
#include "hsmcpp/hsm.hpp"

struct SyncDispatcher : public hsmcpp::HsmEventDispatcherBase {
    bool woken = false;
    bool inlineMode = false;   // dispatch from within emitEvent (sync transitions)
    bool running = false;
    bool start() override { return true; }
    void stop() override {}
    void emitEvent(const hsmcpp::HandlerID_t h) override {
        hsmcpp::HsmEventDispatcherBase::emitEvent(h);
        woken = true;
        if (inlineMode) (void)run();
    }
    void notifyDispatcherAboutEvent() override { woken = true; }
    bool deleteSafe() override { return true; }
    bool pump() {      // one round
        if (!woken) return false;
        woken = false;
        dispatchPendingEvents();
        return true;
    }
    bool run(int limit = 400) {
        if (running) return true;
        running = true;
        int i = 0;
        bool ok = true;
        while (pump()) if (++i > limit) { ok = false; break; }
        running = false;
        return ok;
    }
};
