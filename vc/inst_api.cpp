// Instantiates the templates of the public class so that clang shows their bodies; it contains no code of its own.
#include "hsmcpp/hsm.hpp"
#include "hsmcpp/variant.hpp"
namespace hsmcpp {
struct Handler {
    void failed(const std::list<StateID_t>&, const EventID_t, const VariantVector_t&);
    void changed(const VariantVector_t&);
    bool entering(const VariantVector_t&);
    bool exiting();
    void passing(const VariantVector_t&);
    bool condition(const VariantVector_t&);
};
using HSM = HierarchicalStateMachine;
template void HSM::registerFailedTransitionCallback<Handler>(Handler*, void (Handler::*)(const std::list<StateID_t>&, const EventID_t, const VariantVector_t&));
template void HSM::registerState<Handler>(const StateID_t, Handler*, void (Handler::*)(const VariantVector_t&), bool (Handler::*)(const VariantVector_t&), bool (Handler::*)());
template void HSM::registerFinalState<Handler>(const StateID_t, const EventID_t, Handler*, void (Handler::*)(const VariantVector_t&), bool (Handler::*)(const VariantVector_t&), bool (Handler::*)());
template void HSM::registerHistory<Handler>(const StateID_t, const StateID_t, const HistoryType, const StateID_t, Handler*, void (Handler::*)(const VariantVector_t&));
template bool HSM::registerSubstateEntryPoint<Handler>(const StateID_t, const StateID_t, const EventID_t, Handler*, bool (Handler::*)(const VariantVector_t&), const bool);
template void HSM::registerTransition<Handler>(const StateID_t, const StateID_t, const EventID_t, Handler*, void (Handler::*)(const VariantVector_t&), bool (Handler::*)(const VariantVector_t&), const bool);
template void HSM::registerSelfTransition<Handler>(const StateID_t, const EventID_t, const TransitionType, Handler*, void (Handler::*)(const VariantVector_t&), bool (Handler::*)(const VariantVector_t&), const bool);
template bool HSM::registerStateAction<Variant, Variant>(const StateID_t, const StateActionTrigger, const StateAction, Variant&&, Variant&&);
template void HSM::transition<Variant, Variant, Variant>(const EventID_t, Variant&&, Variant&&, Variant&&);
template bool HSM::transitionEx<Variant, Variant, Variant>(const EventID_t, const bool, const bool, const int, Variant&&, Variant&&, Variant&&);
template bool HSM::transitionSync<Variant, Variant, Variant>(const EventID_t, const int, Variant&&, Variant&&, Variant&&);
template void HSM::transitionWithQueueClear<Variant, Variant, Variant>(const EventID_t, Variant&&, Variant&&, Variant&&);
template bool HSM::isTransitionPossible<Variant, Variant, Variant>(const EventID_t, Variant&&, Variant&&, Variant&&);
}
