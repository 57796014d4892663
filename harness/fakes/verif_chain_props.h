#ifndef CHAIN_PROPS_H
#define CHAIN_PROPS_H
#include "chains.h"
bool c4_eth_chain_props(chain_id_t chain_id, chain_properties_t* props);
static inline bool c4_chains_get_props(chain_id_t chain_id, chain_properties_t* out_props) { (void) chain_id; (void) out_props; return false; }
#endif
