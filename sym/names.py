"""Public attribute names of the real classes (pandas 2.3.3, numpy 2.5.4): a name outside these raises AttributeError, as it does there."""
NAMES = {
    'Series': frozenset("""
        T abs add add_prefix add_suffix agg aggregate align all any apply argmax argmin argsort array asfreq asof
        astype at at_time attrs autocorr axes backfill between between_time bfill bool case_when cat clip combine
        combine_first compare convert_dtypes copy corr count cov cummax cummin cumprod cumsum describe diff div
        divide divmod dot drop drop_duplicates droplevel dropna dt dtype dtypes duplicated empty eq equals ewm
        expanding explode factorize ffill fillna filter first first_valid_index flags floordiv ge get groupby gt
        hasnans head hist iat idxmax idxmin iloc index infer_objects info interpolate is_monotonic_decreasing
        is_monotonic_increasing is_unique isin isna isnull item items keys kurt kurtosis last last_valid_index le
        list loc lt map mask max mean median memory_usage min mod mode mul multiply name nbytes ndim ne nlargest
        notna notnull nsmallest nunique pad pct_change pipe plot pop pow prod product quantile radd rank ravel
        rdiv rdivmod reindex reindex_like rename rename_axis reorder_levels repeat replace resample reset_index
        rfloordiv rmod rmul rolling round rpow rsub rtruediv sample searchsorted sem set_axis set_flags shape
        shift size skew sort_index sort_values sparse squeeze std str struct sub subtract sum swapaxes swaplevel
        tail take to_clipboard to_csv to_dict to_excel to_frame to_hdf to_json to_latex to_list to_markdown
        to_numpy to_period to_pickle to_sql to_string to_timestamp to_xarray tolist transform transpose truediv
        truncate tz_convert tz_localize unique unstack update value_counts values var view where xs
    """.split()),
    'DataFrame': frozenset("""
        T abs add add_prefix add_suffix agg aggregate align all any apply applymap asfreq asof assign astype at
        at_time attrs axes backfill between_time bfill bool boxplot clip columns combine combine_first compare
        convert_dtypes copy corr corrwith count cov cummax cummin cumprod cumsum describe diff div divide dot
        drop drop_duplicates droplevel dropna dtypes duplicated empty eq equals eval ewm expanding explode ffill
        fillna filter first first_valid_index flags floordiv from_dict from_records ge get groupby gt head hist
        iat idxmax idxmin iloc index infer_objects info insert interpolate isetitem isin isna isnull items
        iterrows itertuples join keys kurt kurtosis last last_valid_index le loc lt map mask max mean median melt
        memory_usage merge min mod mode mul multiply ndim ne nlargest notna notnull nsmallest nunique pad
        pct_change pipe pivot pivot_table plot pop pow prod product quantile query radd rank rdiv reindex
        reindex_like rename rename_axis reorder_levels replace resample reset_index rfloordiv rmod rmul rolling
        round rpow rsub rtruediv sample select_dtypes sem set_axis set_flags set_index shape shift size skew
        sort_index sort_values sparse squeeze stack std style sub subtract sum swapaxes swaplevel tail take
        to_clipboard to_csv to_dict to_excel to_feather to_gbq to_hdf to_html to_json to_latex to_markdown
        to_numpy to_orc to_parquet to_period to_pickle to_records to_sql to_stata to_string to_timestamp
        to_xarray to_xml transform transpose truediv truncate tz_convert tz_localize unstack update value_counts
        values var where xs
    """.split()),
    'Index': frozenset("""
        T all any append argmax argmin argsort array as_unit asi8 asof asof_locs astype ceil copy date day
        day_name day_of_week day_of_year dayofweek dayofyear days_in_month daysinmonth delete diff difference
        drop drop_duplicates droplevel dropna dtype duplicated empty equals factorize fillna floor format freq
        freqstr from_range get_indexer get_indexer_for get_indexer_non_unique get_level_values get_loc
        get_slice_bound groupby has_duplicates hasnans holds_integer hour identical indexer_at_time
        indexer_between_time infer_objects inferred_freq inferred_type insert intersection is_ is_boolean
        is_categorical is_floating is_integer is_interval is_leap_year is_monotonic_decreasing
        is_monotonic_increasing is_month_end is_month_start is_normalized is_numeric is_object is_quarter_end
        is_quarter_start is_unique is_year_end is_year_start isin isna isnull isocalendar item join map max mean
        memory_usage microsecond min minute month month_name name names nanosecond nbytes ndim nlevels normalize
        notna notnull nunique putmask quarter ravel reindex rename repeat resolution round searchsorted second
        set_names shape shift size slice_indexer slice_locs snap sort sort_values sortlevel start std step stop
        str strftime symmetric_difference take time timetz to_flat_index to_frame to_julian_date to_list to_numpy
        to_period to_pydatetime to_series tolist transpose tz tz_convert tz_localize tzinfo union unique unit
        value_counts values view weekday where year
    """.split()),
    'ndarray': frozenset("""
        T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate
        copy ctypes cumprod cumsum data device diagonal dot dtype dump dumps fill flags flat flatten getfield
        imag item itemsize mT max mean min nbytes ndim nonzero partition prod put ravel real repeat reshape
        resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take
        to_device tobytes tofile tolist trace transpose var view
    """.split()),
    'Rolling': frozenset("""
        agg aggregate apply corr count cov exclusions kurt max mean median min ndim quantile rank sem skew std
        sum var
    """.split()),
    'EWM': frozenset("""
        agg aggregate corr cov exclusions mean ndim online std sum var
    """.split()),
    'numpy': frozenset("""
        False_ ScalarType True_ abs absolute acos acosh add all allclose amax amin angle any append
        apply_along_axis apply_over_axes arange arccos arccosh arcsin arcsinh arctan arctan2 arctanh argmax
        argmin argpartition argsort argwhere around array array2string array_equal array_equiv array_repr
        array_split array_str asanyarray asarray asarray_chkfinite ascontiguousarray asfortranarray asin asinh
        asmatrix astype atan atan2 atanh atleast_1d atleast_2d atleast_3d average bartlett base_repr binary_repr
        bincount bitwise_and bitwise_count bitwise_invert bitwise_left_shift bitwise_not bitwise_or
        bitwise_right_shift bitwise_xor blackman block bmat bool bool_ broadcast broadcast_arrays
        broadcast_shapes broadcast_to busday_count busday_offset busdaycalendar byte bytes_ c_ can_cast cbrt
        cdouble ceil char character choose clip clongdouble column_stack common_type complex128 complex256
        complex64 complexfloating compress concat concatenate conj conjugate convolve copy copysign copyto core
        corrcoef correlate cos cosh count_nonzero cov cross csingle ctypeslib cumprod cumsum cumulative_prod
        cumulative_sum datetime64 datetime_as_string datetime_data deg2rad degrees delete diag diag_indices
        diag_indices_from diagflat diagonal diff digitize divide divmod dot double dsplit dstack dtype dtypes e
        ediff1d einsum einsum_path emath empty empty_like equal errstate euler_gamma exceptions exp exp2
        expand_dims expm1 extract eye f2py fabs fft fill_diagonal finfo fix flatiter flatnonzero flexible flip
        fliplr flipud float128 float16 float32 float64 float_power floating floor floor_divide fmax fmin fmod
        format_float_positional format_float_scientific frexp from_dlpack frombuffer fromfile fromfunction
        fromiter frompyfunc fromregex fromstring full full_like gcd generic genfromtxt geomspace get_include
        get_printoptions getbufsize geterr geterrcall gradient greater greater_equal half hamming hanning
        heaviside histogram histogram2d histogram_bin_edges histogramdd hsplit hstack hypot i0 identity iinfo
        imag index_exp indices inexact inf info inner insert int16 int32 int64 int8 int_ intc integer interp
        intersect1d intp invert is_busday isclose iscomplex iscomplexobj isdtype isfinite isfortran isin isinf
        isnan isnat isneginf isposinf isreal isrealobj isscalar issubdtype iterable ix_ kaiser kron lcm ldexp
        left_shift less less_equal lexsort lib linalg linspace little_endian load loadtxt log log10 log1p log2
        logaddexp logaddexp2 logical_and logical_not logical_or logical_xor logspace long longdouble longlong ma
        mask_indices matmul matrix matrix_transpose matvec max maximum may_share_memory mean median memmap
        meshgrid mgrid min min_scalar_type minimum mintypecode mod modf moveaxis multiply nan nan_to_num
        nanargmax nanargmin nancumprod nancumsum nanmax nanmean nanmedian nanmin nanpercentile nanprod
        nanquantile nanstd nansum nanvar ndarray ndenumerate ndim ndindex nditer negative nested_iters newaxis
        nextafter nonzero not_equal number object_ ogrid ones ones_like outer packbits pad partition percentile
        permute_dims pi piecewise place poly poly1d polyadd polyder polydiv polyfit polyint polymul polynomial
        polysub polyval positive pow power printoptions prod promote_types ptp put put_along_axis putmask
        quantile r_ rad2deg radians random ravel ravel_multi_index real real_if_close rec recarray reciprocal
        record remainder repeat require reshape resize result_type right_shift rint roll rollaxis roots rot90
        round s_ save savetxt savez savez_compressed sctypeDict searchsorted select set_printoptions setbufsize
        setdiff1d seterr seterrcall setxor1d shape shares_memory short show_config show_runtime sign signbit
        signedinteger sin sinc single sinh size sort sort_complex spacing split sqrt square squeeze stack std
        str_ strings subtract sum swapaxes take take_along_axis tan tanh tensordot test testing tile timedelta64
        trace transpose trapezoid tri tril tril_indices tril_indices_from trim_zeros triu triu_indices
        triu_indices_from true_divide trunc typecodes typename typing ubyte ufunc uint uint16 uint32 uint64 uint8
        uintc uintp ulong ulonglong union1d unique unique_all unique_counts unique_inverse unique_values
        unpackbits unravel_index unsignedinteger unstack unwrap ushort vander var vdot vecdot vecmat vectorize
        void vsplit vstack where zeros zeros_like
    """.split()),
    'pandas': frozenset("""
        ArrowDtype BooleanDtype Categorical CategoricalDtype CategoricalIndex DataFrame DateOffset DatetimeIndex
        DatetimeTZDtype ExcelFile ExcelWriter Flags Float32Dtype Float64Dtype Grouper HDFStore Index IndexSlice
        Int16Dtype Int32Dtype Int64Dtype Int8Dtype Interval IntervalDtype IntervalIndex MultiIndex NA NaT
        NamedAgg Period PeriodDtype PeriodIndex RangeIndex Series SparseDtype StringDtype Timedelta
        TimedeltaIndex Timestamp UInt16Dtype UInt32Dtype UInt64Dtype UInt8Dtype annotations api array arrays
        bdate_range compat concat core crosstab cut date_range describe_option errors eval factorize from_dummies
        get_dummies get_option infer_freq interval_range io isna isnull json_normalize lreshape melt merge
        merge_asof merge_ordered notna notnull offsets option_context options pandas period_range pivot
        pivot_table plotting qcut read_clipboard read_csv read_excel read_feather read_fwf read_gbq read_hdf
        read_html read_json read_orc read_parquet read_pickle read_sas read_spss read_sql read_sql_query
        read_sql_table read_stata read_table read_xml reset_option set_eng_float_format set_option show_versions
        test testing timedelta_range to_datetime to_numeric to_pickle to_timedelta tseries unique util
        value_counts wide_to_long
    """.split()),
}
