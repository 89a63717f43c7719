// Force-included in every translation unit (library and harness): a failed library
// contract is reported by the simulator instead of raising SIGTRAP.
#pragma once
namespace sim { [[noreturn]] void contract_failure(const char* expr, const char* msg) noexcept; }
#define SPARROW_CONTRACTS_ON_FAILURE(expr__, message__) ::sim::contract_failure(#expr__, message__)
