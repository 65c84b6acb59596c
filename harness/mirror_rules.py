# 'using base::some_t;' for a type: MSVC takes it without typename
def g_using_type(t):
    return re.sub(r'(?m)^([ \t]*)using\s+(?!typename\b|namespace\b)((?:\w+(?:<[^;<>]*>)?::)+)(\w+_t)\s*;', r'\1typedef typename \2\3 \3;', t)

# 'obj.f<T>(...)' with a dependent obj: MSVC takes it without 'template'
def g_template_kw(t):
    return re.sub(r'(\.|->)(?!template\b)([A-Za-z_]\w*)(<(?:[\w:,&*\s]|<[\w:,&*\s]*>)*>\s*\()', r'\1template \2\3', t)

# the name of a dependent base class template used without arguments
def g_bare_base(t):
    return re.sub(r'is_base_of<(_i_layer\w*),', r'is_base_of<\1<real_t>,', t)
# 'mtx_t::tag_noBias()' as an expression
def g_tag(t):
    return re.sub(r'(?<![\w:])\w+_t::(tag_noBias)(\(\)|\{\})', r'::nntl::math::\1\2', t)
def g_dep_nested(t):
    # 'Thresholds_t::f<args>::v'
    t = re.sub(r'(?<![\w:])Thresholds_t::(?!template\b)(\w+<)', r'Thresholds_t::template \1', t)
    # 'mtx_size_t(a,b)' or 'realmtx_t::mtx_size_t(a,b)' as an expression
    t = re.sub(r'(?<![\w:])\w+_t::mtx_size_t([({])', r'::nntl::math::smatrix_td::mtx_size_t\1', t)
    return re.sub(r'(?<![\w:.])(?<!>)mtx_size_t([({])', r'::nntl::math::smatrix_td::mtx_size_t\1', t)
GENERIC = [g_dep_nested, g_tag, g_using_type, g_template_kw, g_bare_base]

@rule('nntl/interface/math/smatrix.h')
def _(t):
    # the injected-class-name of a dependent base, without arguments
    i = re.search(r'\bclass\s+smatrix_deform\b', t)
    if i:
        t = t[:i.start()] + re.sub(r'\bsmatrix(\s*&&?)', r'smatrix<T_>\1', t[i.start():])
    return t

@rule('nntl/utils/options.h')
def _(t):
    return re.sub(r',\s*constexpr bool>', ', bool>', t)

@rule('nntl/serialization/serialization.h')
def _(t):
    i = re.search(r'struct named_struct\b[^{]*\{', t)
    if i:
        e = t.index('\n\t};', i.end())
        b = t[i.end():e]
        b = re.sub(r'\bnvp\b(?!\s*<)', 'nvp<T>', b)
        t = t[:i.end()] + b + t[e:]
    return t

@rule('nntl/utils/tictoc.h')
def _(t):
    return t.replace('::std::chrono::high_resolution_clock clock_t', '::std::chrono::steady_clock clock_t')

# Names that come from a dependent base class and are used in declarations, where clang has to resolve them at parse time
@rule('nntl/interface/math/mathn.h')
def _(t):
    return re.sub(r'(?<![\w:])(mrw_cw|mrw_rw)\b', r'base_class_t::\1', t)

@rule('nntl/train_data/_train_data_simple.h', 'nntl/train_data/inmem_train_data.h', 'nntl/train_data/transf_train_data.h', 'nntl/nnet_evaluator.h', 'nntl/training_observer.h')
def _(t):
    return re.sub(r'(?<![\w:])(train_set_id|test_set_id|flag_exclude_\w+)\b', r'DataSetsId::\1', t)

@rule('nntl/common_nn_data.h')
def _(t):
    t = re.sub(r'enable_if_t<!B, static void>', 'enable_if_t<!B, void>', t)
    t = re.sub(r'static_assert\(false,', 'static_assert(B && !B,', t)
    return inject(t, 'interfaces_keeper', 'static constexpr bool bAllowToBlockLearning = {B0}::bAllowToBlockLearning;')

LA = 'static constexpr bool calcOnFprop = {B0}::calcOnFprop; static constexpr bool appendToNZGrad = {B0}::appendToNZGrad;'
@rule('nntl/loss_addendum/L1.h')
def _(t):
    return inject(t, 'L1', LA)
@rule('nntl/loss_addendum/L2.h')
def _(t):
    return inject(t, 'L2', LA)
@rule('nntl/loss_addendum/DeCov.h')
def _(t):
    return inject(t, 'DeCov', LA)
@rule('nntl/loss_addendum/_i_loss_addendum.h')
def _(t):
    t = inject(t, '_i_loss_addendum', 'static constexpr bool calcOnFprop = false;')
    return inject(t, 'scaled_addendum_with_mtx4fprop', 'typedef typename {B0}::mtx_size_t mtx_size_t;')

@rule('nntl/nnet.h')
def _(t):
    return re.sub(r'typename\s+iMath_t::(realmtx\w*_t)', r'typename _base_class::iMath_t::\1', t)
@rule('nntl/layers.h')
def _(t):
    return re.sub(r'typename\s+iMath_t::(realmtx\w*_t)', r'typename output_layer_t::iMath_t::\1', t)

@rule('nntl/layer/fully_connected.h')
def _(t):
    return inject(t, '_LFC_FProp', 'static constexpr bool bActivationForHidden = {B1}::bActivationForHidden;')
@rule('nntl/layer/output.h')
def _(t):
    return inject(t, '_layer_output', 'static constexpr bool bActivationForHidden = {B2}::bActivationForHidden; static constexpr bool bActivationForOutput = {B2}::bActivationForOutput;')
@rule('nntl/layer/pack_horizontal_optional.h')
def _(t):
    return inject(t, '_LPHO', 'static constexpr size_t phl_count = {B0}::phl_count;')

@rule('nntl/interface/math/mathn.h')
def _(t):
    t = re.sub(r'(?<![\w:])converter_reduce_data_tpl<', r'base_class_t::template converter_reduce_data_tpl<', t)
    return inject(t, '_MathN', 'typedef FinalPolymorphChild self_t;')
@rule('nntl/interface/threads/workers.h')
def _(t):
    return re.sub(r'typedef\s+converter_reduce_data_t<', r'typedef typename _i_threads<RealT, RangeT>::template converter_reduce_data_t<', t)
@rule('nntl/interface/math/smatrix.h')
def _(t):
    return t.replace('typedef tag_noBias tag_noBias;', 'typedef ::nntl::math::tag_noBias tag_noBias;')
@rule('nntl/train_data/_td_base.h')
def _(t):
    t = re.sub(r'(?<![\w:])(train_set_id|test_set_id|flag_exclude_\w+|invalid_set_id)\b', r'DataSetsId::\1', t)
    t = t.replace('is_base_of<_i_train_data, FinalPolymorphChild>', 'is_base_of<_i_train_data<XT, YT>, FinalPolymorphChild>')
    return t
# default template arguments that look into a class that is still incomplete: MSVC evaluates them on use
@rule('nntl/layer/_layer_base.h')
def _(t):
    return re.sub(r'template<\s*bool c = (\w+)<self_t>::value\s*>', r'template<typename LazySelfT = self_t, bool c = \1<LazySelfT>::value>', t)
@rule('nntl/train_data/_td_base.h', 'nntl/train_data/transf_train_data.h')
def _(t):
    t = re.sub(r'= typename self_t::default_StatsFuncT', '= typename ::vshim::lazy<self_t, StatsT>::type::default_StatsFuncT', t)
    return re.sub(r'= self_t::template NormalizerF_tpl<', '= typename ::vshim::lazy<self_t, StatsT>::type::template NormalizerF_tpl<', t)

LAYERS = ['nntl/layer/' + f for f in sorted(os.listdir(os.path.join(src, 'nntl/layer'))) if f.endswith('.h')]
@rule(*LAYERS)
def _(t):
    return re.sub(r'(?<![\w:])ErrorCode::', '::nntl::_nnet_errs::ErrorCode::', t)
@rule('nntl/layer/pack_horizontal_optional.h')
def _(t):
    return inject_types(t, '_LPHO', ['realmtx_t', 'realmtxdef_t', 'real_t'])

# MSVC's std::stack gives access to its container
@rule('nntl/utils/layer_idx_keeper.h')
def _(t):
    return t.replace('_base_class_t::_Get_container()', 'this->c')
@rule('nntl/layer/_layer_base.h')
def _(t):
    return re.sub(r'(?<![\w.>:])get_self\(\)\._forwarder_layer', 'this->get_self()._forwarder_layer', t)

@rule('nntl/train_data/_td_norm.h')
def _(t):
    t = re.sub(r'<\s*decltype\((\w+)\)::mtx_update_t\s*>', r'<typename decltype(\1)::mtx_update_t>', t)
    for c in ('_Norm_whole', '_Norm_cw'):
        t = inject(t, c, 'public: typedef FinalT self_t; typedef typename _base_t_vs::statsdata_t statsdata_t; using _base_t_vs::get_self; using _nb_vs::m_td; using _nb_vs::m_Setts; using _nb_vs::m_CD; private:'.replace('_base_t_vs', 'utils::mtx2Normal::_FNorm_%s_base<FinalT, x_t, StatsFunctor_t, stats_t>' % ('whole' if c == '_Norm_whole' else 'cw')).replace('_nb_vs', '_NormBase<TdT, CommonDataT>'))
    return t

@rule('nntl/_supp/io/matfile.h')
def _(t):
    t = re.sub(r'(?<![\w:])FileOpenMode::', '_matfile_base<ErrorsClassT>::', t)
    t = re.sub(r'(?<![\w:.])c\.reserve\(', 'this->c.reserve(', t)
    return inject_types(t, '_matfile', ['FileOpenMode', 'ErrorCode', 'vec_len_t', 'numel_cnt_t'])

@rule('nntl/interface/inspectors/dumper.h', 'nntl/interface/inspectors/stdcout.h')
def _(t):
    return re.sub(r'(?<![\w:])_NoLayerIdxSpecified\b', r'::nntl::inspector::_impl::_base<RealT>::_NoLayerIdxSpecified', t)
