"""JSON objects for the layout types, written by tools/gen_layout.py: (root, type, keys)"""
TABLE = [
    ('layout::layout_1', 'Layout', ('layout_loc', 'version_opt', 'type_decl', 'bin_io_derived', 'bin_prot_rule')),
    ('layout::layout_2', 'Layout', ('bin_prot_rule', 'bin_io_derived', 'type_decl', 'version_opt', 'layout_loc')),
    ('layout::layout_3', 'Layout', ('version_opt', 'type_decl', 'bin_io_derived', 'bin_prot_rule', 'layout_loc')),
    ('layout::layout_4', 'Layout', ('layout_loc', 'version_opt', 'type_decl', 'bin_io_derived', 'bin_prot_rule', 'other')),
    ('layout::layout_5', 'Layout', ('other', 'layout_loc', 'version_opt', 'type_decl', 'bin_io_derived', 'bin_prot_rule')),
    ('layout::layout_6', 'Layout', ('layout_loc', 'other', 'Other_key', 'version_opt', 'type_decl', 'bin_io_derived', 'bin_prot_rule')),
    ('layout::layout_7', 'Layout', ('version_opt', 'type_decl', 'bin_io_derived', 'bin_prot_rule')),
    ('layout::layout_8', 'Layout', ('layout_loc', 'type_decl', 'bin_io_derived', 'bin_prot_rule')),
    ('layout::layout_9', 'Layout', ('layout_loc', 'version_opt', 'bin_io_derived', 'bin_prot_rule')),
    ('layout::layout_10', 'Layout', ('layout_loc', 'version_opt', 'type_decl', 'bin_prot_rule')),
    ('layout::layout_11', 'Layout', ('layout_loc', 'version_opt', 'type_decl', 'bin_io_derived')),
    ('layout::layout_12', 'Layout', ('bin_prot_rule', 'bin_io_derived', 'type_decl', 'version_opt')),
    ('layout::layout_13', 'Layout', ('bin_prot_rule', 'bin_io_derived', 'type_decl', 'layout_loc')),
    ('layout::layout_14', 'Layout', ('bin_prot_rule', 'bin_io_derived', 'version_opt', 'layout_loc')),
    ('layout::layout_15', 'Layout', ('bin_prot_rule', 'type_decl', 'version_opt', 'layout_loc')),
    ('layout::layout_16', 'Layout', ('bin_io_derived', 'type_decl', 'version_opt', 'layout_loc')),
    ('layout::recordfield_1', 'RecordField', ('field_name', 'field_rule')),
    ('layout::recordfield_2', 'RecordField', ('field_rule', 'field_name')),
    ('layout::recordfield_3', 'RecordField', ('field_name', 'field_rule', 'other')),
    ('layout::recordfield_4', 'RecordField', ('other', 'field_name', 'field_rule')),
    ('layout::recordfield_5', 'RecordField', ('field_name', 'other', 'Other_key', 'field_rule')),
    ('layout::recordfield_6', 'RecordField', ('field_rule',)),
    ('layout::recordfield_7', 'RecordField', ('field_name',)),
    ('layout::summand_1', 'Summand', ('ctor_name', 'index', 'ctor_args')),
    ('layout::summand_2', 'Summand', ('ctor_args', 'index', 'ctor_name')),
    ('layout::summand_3', 'Summand', ('index', 'ctor_args', 'ctor_name')),
    ('layout::summand_4', 'Summand', ('ctor_name', 'index', 'ctor_args', 'other')),
    ('layout::summand_5', 'Summand', ('other', 'ctor_name', 'index', 'ctor_args')),
    ('layout::summand_6', 'Summand', ('ctor_name', 'other', 'Other_key', 'index', 'ctor_args')),
    ('layout::summand_7', 'Summand', ('index', 'ctor_args')),
    ('layout::summand_8', 'Summand', ('ctor_name', 'ctor_args')),
    ('layout::summand_9', 'Summand', ('ctor_name', 'index')),
    ('layout::summand_10', 'Summand', ('ctor_args', 'index')),
    ('layout::summand_11', 'Summand', ('ctor_args', 'ctor_name')),
    ('layout::summand_12', 'Summand', ('index', 'ctor_name')),
    ('layout::hashtblentry_1', 'HashTblEntry', ('key_rule', 'value_rule')),
    ('layout::hashtblentry_2', 'HashTblEntry', ('value_rule', 'key_rule')),
    ('layout::hashtblentry_3', 'HashTblEntry', ('key_rule', 'value_rule', 'other')),
    ('layout::hashtblentry_4', 'HashTblEntry', ('other', 'key_rule', 'value_rule')),
    ('layout::hashtblentry_5', 'HashTblEntry', ('key_rule', 'other', 'Other_key', 'value_rule')),
    ('layout::hashtblentry_6', 'HashTblEntry', ('value_rule',)),
    ('layout::hashtblentry_7', 'HashTblEntry', ('key_rule',)),
    ('layout::taggedpolyvar_1', 'TaggedPolyvar', ('polyvar_name', 'hash', 'polyvar_args')),
    ('layout::taggedpolyvar_2', 'TaggedPolyvar', ('polyvar_args', 'hash', 'polyvar_name')),
    ('layout::taggedpolyvar_3', 'TaggedPolyvar', ('hash', 'polyvar_args', 'polyvar_name')),
    ('layout::taggedpolyvar_4', 'TaggedPolyvar', ('polyvar_name', 'hash', 'polyvar_args', 'other')),
    ('layout::taggedpolyvar_5', 'TaggedPolyvar', ('other', 'polyvar_name', 'hash', 'polyvar_args')),
    ('layout::taggedpolyvar_6', 'TaggedPolyvar', ('polyvar_name', 'other', 'Other_key', 'hash', 'polyvar_args')),
    ('layout::taggedpolyvar_7', 'TaggedPolyvar', ('hash', 'polyvar_args')),
    ('layout::taggedpolyvar_8', 'TaggedPolyvar', ('polyvar_name', 'polyvar_args')),
    ('layout::taggedpolyvar_9', 'TaggedPolyvar', ('polyvar_name', 'hash')),
    ('layout::taggedpolyvar_10', 'TaggedPolyvar', ('polyvar_args', 'hash')),
    ('layout::taggedpolyvar_11', 'TaggedPolyvar', ('polyvar_args', 'polyvar_name')),
    ('layout::taggedpolyvar_12', 'TaggedPolyvar', ('hash', 'polyvar_name')),
    ('layout::unresolvedpayload_1', 'UnresolvedPayload', ('params', 'layout_id')),
    ('layout::unresolvedpayload_2', 'UnresolvedPayload', ('layout_id', 'params')),
    ('layout::unresolvedpayload_3', 'UnresolvedPayload', ('params', 'layout_id', 'other')),
    ('layout::unresolvedpayload_4', 'UnresolvedPayload', ('other', 'params', 'layout_id')),
    ('layout::unresolvedpayload_5', 'UnresolvedPayload', ('params', 'other', 'Other_key', 'layout_id')),
    ('layout::unresolvedpayload_6', 'UnresolvedPayload', ('layout_id',)),
    ('layout::unresolvedpayload_7', 'UnresolvedPayload', ('params',)),
    ('layout::resolvedpayload_1', 'ResolvedPayload', ('source_type_decl', 'source_module_path', 'bin_io_derived', 'ref_rule')),
    ('layout::resolvedpayload_2', 'ResolvedPayload', ('ref_rule', 'bin_io_derived', 'source_module_path', 'source_type_decl')),
    ('layout::resolvedpayload_3', 'ResolvedPayload', ('source_module_path', 'bin_io_derived', 'ref_rule', 'source_type_decl')),
    ('layout::resolvedpayload_4', 'ResolvedPayload', ('source_type_decl', 'source_module_path', 'bin_io_derived', 'ref_rule', 'other')),
    ('layout::resolvedpayload_5', 'ResolvedPayload', ('other', 'source_type_decl', 'source_module_path', 'bin_io_derived', 'ref_rule')),
    ('layout::resolvedpayload_6', 'ResolvedPayload', ('source_type_decl', 'other', 'Other_key', 'source_module_path', 'bin_io_derived', 'ref_rule')),
    ('layout::resolvedpayload_7', 'ResolvedPayload', ('source_module_path', 'bin_io_derived', 'ref_rule')),
    ('layout::resolvedpayload_8', 'ResolvedPayload', ('source_type_decl', 'bin_io_derived', 'ref_rule')),
    ('layout::resolvedpayload_9', 'ResolvedPayload', ('source_type_decl', 'source_module_path', 'ref_rule')),
    ('layout::resolvedpayload_10', 'ResolvedPayload', ('source_type_decl', 'source_module_path', 'bin_io_derived')),
    ('layout::resolvedpayload_11', 'ResolvedPayload', ('ref_rule', 'bin_io_derived', 'source_module_path')),
    ('layout::resolvedpayload_12', 'ResolvedPayload', ('ref_rule', 'bin_io_derived', 'source_type_decl')),
    ('layout::resolvedpayload_13', 'ResolvedPayload', ('ref_rule', 'source_module_path', 'source_type_decl')),
    ('layout::resolvedpayload_14', 'ResolvedPayload', ('bin_io_derived', 'source_module_path', 'source_type_decl')),
]
