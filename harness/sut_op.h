/* the sequencers of the OP-Stack chains: the real table, with the address of a test key where the harness has to sign blocks */
#include "op_chains_conf.h"
const op_chain_config_t* real_op_get_chain_config(uint64_t chain_id);
static op_chain_config_t opseq[64];
static int               n_opseq;
const op_chain_config_t* op_get_chain_config(uint64_t chain_id) {
  for (int i = 0; i < n_opseq; i++)
    if (opseq[i].chain_id == chain_id) return opseq + i;
  return real_op_get_chain_config(chain_id);
}
static void c_opseq(void) {
  const op_chain_config_t* c = real_op_get_chain_config(strtoull(tok[1], NULL, 0));
  bytes_t                  a = T(2);
  if (c && n_opseq < 64) {
    opseq[n_opseq] = *c;
    opseq[n_opseq++].sequencer_address = memcpy(malloc(20), a.data, 20);
  }
  free(a.data);
  o("{\"ok\":%d}", c ? 1 : 0);
}
static void c_opconf(void) {
  const op_chain_config_t* c = real_op_get_chain_config(strtoull(tok[1], NULL, 0));
  if (!c) { o("{\"a\":null}"); return; }
  o("{\"a\":\""); o_hex((uint8_t*) c->sequencer_address, 20); o("\"}");
}
#define OP_CMDS {"opseq", c_opseq}, {"opconf", c_opconf},
