"""The published layout of the state-history protocol, as an ABI (struct: base | member type, ...)."""
from . import abi as R

STRUCTS = """
extension: type uint16, data bytes
get_status_request_v0:
block_position: block_num uint32, block_id checksum256
get_status_result_v0: head block_position, last_irreversible block_position, trace_begin_block uint32, trace_end_block uint32, chain_state_begin_block uint32, chain_state_end_block uint32, chain_id checksum256
get_blocks_request_v0: start_block_num uint32, end_block_num uint32, max_messages_in_flight uint32, have_positions block_position[], irreversible_only bool, fetch_block bool, fetch_traces bool, fetch_deltas bool
get_blocks_ack_request_v0: num_messages uint32
get_blocks_result_base: head block_position, last_irreversible block_position, this_block block_position?, prev_block block_position?
get_blocks_result_v0: get_blocks_result_base | block bytes?, traces bytes?, deltas bytes?
get_blocks_result_v1: get_blocks_result_base | block signed_block_variant?, traces bytes, deltas bytes
row: present bool, data bytes
table_delta_v0: name string, rows row[]
permission_level: actor name, permission name
action: account name, name name, authorization permission_level[], data bytes
account_auth_sequence: account name, sequence uint64
action_receipt_v0: receiver name, act_digest checksum256, global_sequence uint64, recv_sequence uint64, auth_sequence account_auth_sequence[], code_sequence varuint32, abi_sequence varuint32
account_delta: account name, delta int64
action_trace_v0: action_ordinal varuint32, creator_action_ordinal varuint32, receipt action_receipt?, receiver name, act action, context_free bool, elapsed int64, console string, account_ram_deltas account_delta[], except string?, error_code uint64?
action_trace_v1: action_ordinal varuint32, creator_action_ordinal varuint32, receipt action_receipt?, receiver name, act action, context_free bool, elapsed int64, console string, account_ram_deltas account_delta[], account_disk_deltas account_delta[], except string?, error_code uint64?, return_value bytes
prunable_data_type::none: prunable_digest checksum256
prunable_data_type::partial: signatures signature[], context_free_segments segment_type[]
prunable_data_type::full: signatures signature[], context_free_segments bytes[]
prunable_data_type::full_legacy: signatures signature[], packed_context_free_data bytes
prunable_data_type: prunable_data prunable_data_t
partial_transaction_v0: expiration time_point_sec, ref_block_num uint16, ref_block_prefix uint32, max_net_usage_words varuint32, max_cpu_usage_ms uint8, delay_sec varuint32, transaction_extensions extension[], signatures signature[], context_free_data bytes[]
partial_transaction_v1: expiration time_point_sec, ref_block_num uint16, ref_block_prefix uint32, max_net_usage_words varuint32, max_cpu_usage_ms uint8, delay_sec varuint32, transaction_extensions extension[], prunable_data prunable_data_type?
transaction_trace_v0: id checksum256, status status, cpu_usage_us uint32, net_usage_words varuint32, elapsed int64, net_usage uint64, scheduled bool, action_traces action_trace[], account_ram_delta account_delta?, except string?, error_code uint64?, failed_dtrx_trace transaction_trace[], partial partial_transaction?
producer_key: producer_name name, block_signing_key public_key
producer_schedule: version uint32, producers producer_key[]
transaction_receipt_header: status status, cpu_usage_us uint32, net_usage_words varuint32
packed_transaction_v0: signatures signature[], compression uint8, packed_context_free_data bytes, packed_trx bytes
packed_transaction: compression uint8, prunable_data prunable_data_type, packed_trx bytes
transaction_receipt_v0: transaction_receipt_header | trx transaction_variant_v0
transaction_receipt: transaction_receipt_header | trx transaction_variant
block_header: timestamp block_timestamp_type, producer name, confirmed uint16, previous checksum256, transaction_mroot checksum256, action_mroot checksum256, schedule_version uint32, new_producers producer_schedule?, header_extensions extension[]
signed_block_header: block_header | producer_signature signature
signed_block_v0: signed_block_header | transactions transaction_receipt_v0[], block_extensions extension[]
signed_block_v1: signed_block_header | prune_state uint8, transactions transaction_receipt[], block_extensions extension[]
transaction_header: expiration time_point_sec, ref_block_num uint16, ref_block_prefix uint32, max_net_usage_words varuint32, max_cpu_usage_ms uint8, delay_sec varuint32
transaction: transaction_header | context_free_actions action[], actions action[], transaction_extensions extension[]
code_id: vm_type uint8, vm_version uint8, code_hash checksum256
account_v0: name name, creation_date block_timestamp_type, abi bytes
account_metadata_v0: name name, privileged bool, last_code_update time_point, code code_id?
code_v0: vm_type uint8, vm_version uint8, code_hash checksum256, code bytes
contract_table_v0: code name, scope name, table name, payer name
contract_row_v0: code name, scope name, table name, primary_key uint64, payer name, value bytes
contract_index64_v0: code name, scope name, table name, primary_key uint64, payer name, secondary_key uint64
contract_index128_v0: code name, scope name, table name, primary_key uint64, payer name, secondary_key uint128
contract_index256_v0: code name, scope name, table name, primary_key uint64, payer name, secondary_key checksum256
contract_index_double_v0: code name, scope name, table name, primary_key uint64, payer name, secondary_key float64
contract_index_long_double_v0: code name, scope name, table name, primary_key uint64, payer name, secondary_key float128
key_value_v0: database name, contract name, key bytes, value bytes
key_weight: key public_key, weight uint16
block_signing_authority_v0: threshold uint32, keys key_weight[]
producer_authority: producer_name name, authority block_signing_authority
producer_authority_schedule: version uint32, producers producer_authority[]
chain_config_v0: max_block_net_usage uint64, target_block_net_usage_pct uint32, max_transaction_net_usage uint32, base_per_transaction_net_usage uint32, net_usage_leeway uint32, context_free_discount_net_usage_num uint32, context_free_discount_net_usage_den uint32, max_block_cpu_usage uint32, target_block_cpu_usage_pct uint32, max_transaction_cpu_usage uint32, min_transaction_cpu_usage uint32, max_transaction_lifetime uint32, deferred_trx_expiration_window uint32, max_transaction_delay uint32, max_inline_action_size uint32, max_inline_action_depth uint16, max_authority_depth uint16
global_property_v0: proposed_schedule_block_num uint32?, proposed_schedule producer_schedule, configuration chain_config
global_property_v1: proposed_schedule_block_num uint32?, proposed_schedule producer_authority_schedule, configuration chain_config, chain_id checksum256
generated_transaction_v0: sender name, sender_id uint128, payer name, trx_id checksum256, packed_trx bytes
activated_protocol_feature_v0: feature_digest checksum256, activation_block_num uint32
protocol_state_v0: activated_protocol_features activated_protocol_feature[]
permission_level_weight: permission permission_level, weight uint16
wait_weight: wait_sec uint32, weight uint16
authority: threshold uint32, keys key_weight[], accounts permission_level_weight[], waits wait_weight[]
permission_v0: owner name, name name, parent name, last_updated time_point, auth authority
permission_link_v0: account name, code name, message_type name, required_permission name
resource_limits_v0: owner name, net_weight int64, cpu_weight int64, ram_bytes int64
usage_accumulator_v0: last_ordinal uint32, value_ex uint64, consumed uint64
resource_usage_v0: owner name, net_usage usage_accumulator, cpu_usage usage_accumulator, ram_usage uint64
resource_limits_state_v0: average_block_net_usage usage_accumulator, average_block_cpu_usage usage_accumulator, total_net_weight uint64, total_cpu_weight uint64, total_ram_bytes uint64, virtual_net_limit uint64, virtual_cpu_limit uint64
resource_limits_ratio_v0: numerator uint64, denominator uint64
elastic_limit_parameters_v0: target uint64, max uint64, periods uint32, max_multiplier uint32, contract_rate resource_limits_ratio, expand_rate resource_limits_ratio
resource_limits_config_v0: cpu_limit_parameters elastic_limit_parameters, net_limit_parameters elastic_limit_parameters, account_cpu_usage_average_window uint32, account_net_usage_average_window uint32
block_info: block_num uint32, block_id checksum256, timestamp block_timestamp_type
"""
VARIANTS = """
request: get_status_request_v0 get_blocks_request_v0 get_blocks_ack_request_v0
result: get_status_result_v0 get_blocks_result_v0 get_blocks_result_v1
table_delta: table_delta_v0
action_receipt: action_receipt_v0
action_trace: action_trace_v0 action_trace_v1
segment_type: checksum256 bytes
prunable_data_t: prunable_data_type::full_legacy prunable_data_type::none prunable_data_type::partial prunable_data_type::full
partial_transaction: partial_transaction_v0 partial_transaction_v1
transaction_trace: transaction_trace_v0
transaction_variant_v0: checksum256 packed_transaction_v0
transaction_variant: checksum256 packed_transaction
signed_block_variant: signed_block_v0 signed_block_v1
account: account_v0
account_metadata: account_metadata_v0
code: code_v0
contract_table: contract_table_v0
contract_row: contract_row_v0
contract_index64: contract_index64_v0
contract_index128: contract_index128_v0
contract_index256: contract_index256_v0
contract_index_double: contract_index_double_v0
contract_index_long_double: contract_index_long_double_v0
key_value: key_value_v0
block_signing_authority: block_signing_authority_v0
chain_config: chain_config_v0
global_property: global_property_v0 global_property_v1
generated_transaction: generated_transaction_v0
activated_protocol_feature: activated_protocol_feature_v0
protocol_state: protocol_state_v0
permission: permission_v0
permission_link: permission_link_v0
resource_limits: resource_limits_v0
usage_accumulator: usage_accumulator_v0
resource_usage: resource_usage_v0
resource_limits_state: resource_limits_state_v0
resource_limits_ratio: resource_limits_ratio_v0
elastic_limit_parameters: elastic_limit_parameters_v0
resource_limits_config: resource_limits_config_v0
"""
STATUS = ["executed", "soft_fail", "hard_fail", "delayed", "expired"]


def definition(status="uint8"):
    d = {"version": "eosio::abi/1.1", "types": [{"new_type_name": "status", "type": status}], "structs": [], "variants": []}
    for l in STRUCTS.strip().split("\n"):
        n, m = l.rsplit(": ", 1) if ": " in l else (l.rstrip(":"), "")
        b, m = m.split(" | ") if " | " in m else ("", m)
        d["structs"].append({"name": n, "base": b, "fields": [dict(zip(("name", "type"), x.split(" "))) for x in m.split(", ") if x]})
    for l in VARIANTS.strip().split("\n"):
        n, m = l.split(": ")
        d["variants"].append({"name": n, "types": m.split(" ")})
    return d


class Status(R.Int):
    """transaction_status: one byte, printed by name"""
    def __init__(self): R.Int.__init__(self, 8, False)
    def out(self, v):
        if v >= len(STATUS): raise R.Reject("unknown status")
        return R.T(STATUS[v])
    def gen(self, r): return r.randrange(5)


R.SCALARS["transaction_status"] = Status()


class Ship(R.Abi):
    """counts variants met while encoding and replaces the tag of the n-th one"""
    badtag = None
    def enc(self, t, v):
        if t[0] != "v": return R.Abi.enc(self, t, v)
        self.met += 1
        if self.met == self.badtag:
            return self.tag(len(self.alts(t[1]))) + R.Abi.enc(self, self.alts(t[1])[v[0]][1], v[1])
        return R.leb(v[0]) + self.enc(self.alts(t[1])[v[0]][1], v[1])


NATIVE = Ship(definition("transaction_status"))
NATIVE.met = 0
DYNAMIC = R.Abi(definition())
NAMES = [s["name"] for s in NATIVE.d["structs"]] + [v["name"] for v in NATIVE.d["variants"]]
NOJSON = {"get_blocks_result_v1", "result"}
