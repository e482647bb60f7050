// The published member names of the library's reflected types, base members first (X(type, its own name, members...)).
X(eosio::microseconds, "microseconds", "_count")
X(eosio::time_point, "time_point", "elapsed")
X(eosio::time_point_sec, "time_point_sec", "utc_seconds")
X(eosio::block_timestamp_type, "block_timestamp_type", "slot")
X(eosio::type_def, "type_def", "new_type_name", "type")
X(eosio::field_def, "field_def", "name", "type")
X(eosio::struct_def, "struct_def", "name", "base", "fields")
X(eosio::action_def, "action_def", "name", "type", "ricardian_contract")
X(eosio::table_def, "table_def", "name", "index_type", "key_names", "key_types", "type")
X(eosio::clause_pair, "clause_pair", "id", "body")
X(eosio::error_message, "error_message", "error_code", "error_msg")
X(eosio::variant_def, "variant_def", "name", "types")
X(eosio::abi_def, "abi_def", "version", "types", "structs", "actions", "tables", "ricardian_clauses", "error_messages", "abi_extensions", "variants")
X(chain_types::block_info, "block_info", "block_num", "block_id", "timestamp")
X(eosio::symbol_code, "symbol_code", "value")
X(eosio::symbol, "symbol", "value")
X(eosio::extended_symbol, "extended_symbol", "sym", "contract")
X(eosio::checksum160, "checksum160", "value")
X(eosio::checksum256, "checksum256", "value")
X(eosio::checksum512, "checksum512", "value")
X(eosio::ship_protocol::extension, "extension", "type", "data")
X(eosio::ship_protocol::get_status_request_v0, "get_status_request_v0")
X(eosio::ship_protocol::block_position, "block_position", "block_num", "block_id")
X(eosio::ship_protocol::get_status_result_v0, "get_status_result_v0", "head", "last_irreversible", "trace_begin_block", "trace_end_block", "chain_state_begin_block", "chain_state_end_block", "chain_id")
X(eosio::ship_protocol::get_blocks_request_v0, "get_blocks_request_v0", "start_block_num", "end_block_num", "max_messages_in_flight", "have_positions", "irreversible_only", "fetch_block", "fetch_traces", "fetch_deltas")
X(eosio::ship_protocol::get_blocks_ack_request_v0, "get_blocks_ack_request_v0", "num_messages")
X(eosio::ship_protocol::get_blocks_result_base, "get_blocks_result_base", "head", "last_irreversible", "this_block", "prev_block")
X(eosio::ship_protocol::get_blocks_result_v0, "get_blocks_result_v0", "head", "last_irreversible", "this_block", "prev_block", "block", "traces", "deltas")
X(eosio::ship_protocol::row, "row", "present", "data")
X(eosio::ship_protocol::table_delta_v0, "table_delta_v0", "name", "rows")
X(eosio::ship_protocol::permission_level, "permission_level", "actor", "permission")
X(eosio::ship_protocol::action, "action", "account", "name", "authorization", "data")
X(eosio::ship_protocol::account_auth_sequence, "account_auth_sequence", "account", "sequence")
X(eosio::ship_protocol::action_receipt_v0, "action_receipt_v0", "receiver", "act_digest", "global_sequence", "recv_sequence", "auth_sequence", "code_sequence", "abi_sequence")
X(eosio::ship_protocol::account_delta, "account_delta", "account", "delta")
X(eosio::ship_protocol::action_trace_v0, "action_trace_v0", "action_ordinal", "creator_action_ordinal", "receipt", "receiver", "act", "context_free", "elapsed", "console", "account_ram_deltas", "except", "error_code")
X(eosio::ship_protocol::action_trace_v1, "action_trace_v1", "action_ordinal", "creator_action_ordinal", "receipt", "receiver", "act", "context_free", "elapsed", "console", "account_ram_deltas", "account_disk_deltas", "except", "error_code", "return_value")
X(eosio::ship_protocol::prunable_data_type, "prunable_data_type", "prunable_data")
X(eosio::ship_protocol::prunable_data_type::none, "prunable_data_type::none", "prunable_digest")
X(eosio::ship_protocol::prunable_data_type::partial, "prunable_data_type::partial", "signatures", "context_free_segments")
X(eosio::ship_protocol::prunable_data_type::full, "prunable_data_type::full", "signatures", "context_free_segments")
X(eosio::ship_protocol::prunable_data_type::full_legacy, "prunable_data_type::full_legacy", "signatures", "packed_context_free_data")
X(eosio::ship_protocol::partial_transaction_v0, "partial_transaction_v0", "expiration", "ref_block_num", "ref_block_prefix", "max_net_usage_words", "max_cpu_usage_ms", "delay_sec", "transaction_extensions", "signatures", "context_free_data")
X(eosio::ship_protocol::partial_transaction_v1, "partial_transaction_v1", "expiration", "ref_block_num", "ref_block_prefix", "max_net_usage_words", "max_cpu_usage_ms", "delay_sec", "transaction_extensions", "prunable_data")
X(eosio::ship_protocol::transaction_trace_v0, "transaction_trace_v0", "id", "status", "cpu_usage_us", "net_usage_words", "elapsed", "net_usage", "scheduled", "action_traces", "account_ram_delta", "except", "error_code", "failed_dtrx_trace", "partial")
X(eosio::ship_protocol::producer_key, "producer_key", "producer_name", "block_signing_key")
X(eosio::ship_protocol::producer_schedule, "producer_schedule", "version", "producers")
X(eosio::ship_protocol::transaction_receipt_header, "transaction_receipt_header", "status", "cpu_usage_us", "net_usage_words")
X(eosio::ship_protocol::packed_transaction_v0, "packed_transaction_v0", "signatures", "compression", "packed_context_free_data", "packed_trx")
X(eosio::ship_protocol::packed_transaction, "packed_transaction", "compression", "prunable_data", "packed_trx")
X(eosio::ship_protocol::transaction_receipt_v0, "transaction_receipt_v0", "status", "cpu_usage_us", "net_usage_words", "trx")
X(eosio::ship_protocol::transaction_receipt, "transaction_receipt", "status", "cpu_usage_us", "net_usage_words", "trx")
X(eosio::ship_protocol::block_header, "block_header", "timestamp", "producer", "confirmed", "previous", "transaction_mroot", "action_mroot", "schedule_version", "new_producers", "header_extensions")
X(eosio::ship_protocol::signed_block_header, "signed_block_header", "timestamp", "producer", "confirmed", "previous", "transaction_mroot", "action_mroot", "schedule_version", "new_producers", "header_extensions", "producer_signature")
X(eosio::ship_protocol::signed_block_v0, "signed_block_v0", "timestamp", "producer", "confirmed", "previous", "transaction_mroot", "action_mroot", "schedule_version", "new_producers", "header_extensions", "producer_signature", "transactions", "block_extensions")
X(eosio::ship_protocol::signed_block_v1, "signed_block_v1", "timestamp", "producer", "confirmed", "previous", "transaction_mroot", "action_mroot", "schedule_version", "new_producers", "header_extensions", "producer_signature", "prune_state", "transactions", "block_extensions")
X(eosio::ship_protocol::get_blocks_result_v1, "get_blocks_result_v1", "head", "last_irreversible", "this_block", "prev_block", "block", "traces", "deltas")
X(eosio::ship_protocol::transaction_header, "transaction_header", "expiration", "ref_block_num", "ref_block_prefix", "max_net_usage_words", "max_cpu_usage_ms", "delay_sec")
X(eosio::ship_protocol::transaction, "transaction", "expiration", "ref_block_num", "ref_block_prefix", "max_net_usage_words", "max_cpu_usage_ms", "delay_sec", "context_free_actions", "actions", "transaction_extensions")
X(eosio::ship_protocol::code_id, "code_id", "vm_type", "vm_version", "code_hash")
X(eosio::ship_protocol::account_v0, "account_v0", "name", "creation_date", "abi")
X(eosio::ship_protocol::account_metadata_v0, "account_metadata_v0", "name", "privileged", "last_code_update", "code")
X(eosio::ship_protocol::code_v0, "code_v0", "vm_type", "vm_version", "code_hash", "code")
X(eosio::ship_protocol::contract_table_v0, "contract_table_v0", "code", "scope", "table", "payer")
X(eosio::ship_protocol::contract_row_v0, "contract_row_v0", "code", "scope", "table", "primary_key", "payer", "value")
X(eosio::ship_protocol::contract_index64_v0, "contract_index64_v0", "code", "scope", "table", "primary_key", "payer", "secondary_key")
X(eosio::ship_protocol::contract_index128_v0, "contract_index128_v0", "code", "scope", "table", "primary_key", "payer", "secondary_key")
X(eosio::ship_protocol::contract_index256_v0, "contract_index256_v0", "code", "scope", "table", "primary_key", "payer", "secondary_key")
X(eosio::ship_protocol::contract_index_double_v0, "contract_index_double_v0", "code", "scope", "table", "primary_key", "payer", "secondary_key")
X(eosio::ship_protocol::contract_index_long_double_v0, "contract_index_long_double_v0", "code", "scope", "table", "primary_key", "payer", "secondary_key")
X(eosio::ship_protocol::key_value_v0, "key_value_v0", "database", "contract", "key", "value")
X(eosio::ship_protocol::key_weight, "key_weight", "key", "weight")
X(eosio::ship_protocol::block_signing_authority_v0, "block_signing_authority_v0", "threshold", "keys")
X(eosio::ship_protocol::producer_authority, "producer_authority", "producer_name", "authority")
X(eosio::ship_protocol::producer_authority_schedule, "producer_authority_schedule", "version", "producers")
X(eosio::ship_protocol::chain_config_v0, "chain_config_v0", "max_block_net_usage", "target_block_net_usage_pct", "max_transaction_net_usage", "base_per_transaction_net_usage", "net_usage_leeway", "context_free_discount_net_usage_num", "context_free_discount_net_usage_den", "max_block_cpu_usage", "target_block_cpu_usage_pct", "max_transaction_cpu_usage", "min_transaction_cpu_usage", "max_transaction_lifetime", "deferred_trx_expiration_window", "max_transaction_delay", "max_inline_action_size", "max_inline_action_depth", "max_authority_depth")
X(eosio::ship_protocol::global_property_v0, "global_property_v0", "proposed_schedule_block_num", "proposed_schedule", "configuration")
X(eosio::ship_protocol::global_property_v1, "global_property_v1", "proposed_schedule_block_num", "proposed_schedule", "configuration", "chain_id")
X(eosio::ship_protocol::generated_transaction_v0, "generated_transaction_v0", "sender", "sender_id", "payer", "trx_id", "packed_trx")
X(eosio::ship_protocol::activated_protocol_feature_v0, "activated_protocol_feature_v0", "feature_digest", "activation_block_num")
X(eosio::ship_protocol::protocol_state_v0, "protocol_state_v0", "activated_protocol_features")
X(eosio::ship_protocol::permission_level_weight, "permission_level_weight", "permission", "weight")
X(eosio::ship_protocol::wait_weight, "wait_weight", "wait_sec", "weight")
X(eosio::ship_protocol::authority, "authority", "threshold", "keys", "accounts", "waits")
X(eosio::ship_protocol::permission_v0, "permission_v0", "owner", "name", "parent", "last_updated", "auth")
X(eosio::ship_protocol::permission_link_v0, "permission_link_v0", "account", "code", "message_type", "required_permission")
X(eosio::ship_protocol::resource_limits_v0, "resource_limits_v0", "owner", "net_weight", "cpu_weight", "ram_bytes")
X(eosio::ship_protocol::usage_accumulator_v0, "usage_accumulator_v0", "last_ordinal", "value_ex", "consumed")
X(eosio::ship_protocol::resource_usage_v0, "resource_usage_v0", "owner", "net_usage", "cpu_usage", "ram_usage")
X(eosio::ship_protocol::resource_limits_state_v0, "resource_limits_state_v0", "average_block_net_usage", "average_block_cpu_usage", "total_net_weight", "total_cpu_weight", "total_ram_bytes", "virtual_net_limit", "virtual_cpu_limit")
X(eosio::ship_protocol::resource_limits_ratio_v0, "resource_limits_ratio_v0", "numerator", "denominator")
X(eosio::ship_protocol::elastic_limit_parameters_v0, "elastic_limit_parameters_v0", "target", "max", "periods", "max_multiplier", "contract_rate", "expand_rate")
X(eosio::ship_protocol::resource_limits_config_v0, "resource_limits_config_v0", "cpu_limit_parameters", "net_limit_parameters", "account_cpu_usage_average_window", "account_net_usage_average_window")
X(eosio::asset, "asset", "amount", "symbol")
X(eosio::extended_asset, "extended_asset", "quantity", "contract")
X(eosio::float128, "float128", "value")
X(eosio::webauthn_public_key, "webauthn_public_key", "key", "user_presence", "rpid")
X(eosio::webauthn_signature, "webauthn_signature", "compact_signature", "auth_data", "client_json")
X(eosio::varuint32, "varuint32", "value")
X(eosio::varint32, "varint32", "value")
X(eosio::bytes, "bytes", "data")
X(eosio::name, "name", "value")
