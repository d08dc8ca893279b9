import sys; sys.path.insert(0,'/verif/tools/battery')
from mut import mutq as mut, hd, done
R='p24_utc'
T='caput/astro/time.py'; O='caput/astro/observer.py'; SF='caput/astro/skyfield.py'; C='caput/config.py'; M='caput/memdata/_memh5.py'
hd('bugs')
mut(R,[(T,"datetime.fromtimestamp(unix_time, timezone.utc)","datetime.fromtimestamp(unix_time)")],'no tz')
mut(R,[(T,"naive_datetime_to_utc(datetime.fromtimestamp(0, timezone.utc))","naive_datetime_to_utc(datetime.fromtimestamp(0))")],'epoch local')
mut(R,[(T,"        if dt.tzinfo is None:\n            dt = dt.replace(tzinfo=utc)","        dt = dt.replace(tzinfo=utc)")],'always replace')
mut(R,[(T,"        if dt.tzinfo is None:\n            dt = dt.replace(tzinfo=utc)","        dt = dt.astimezone(utc)")],'always astimezone')
mut(R,[(T,"    since_epoch = dt - epoch_start\n\n    return since_epoch.total_seconds()","    return dt.replace(tzinfo=None).timestamp()")],'timestamp of naive')
mut(R,[(T,"    dt = naive_datetime_to_utc(dt)\n    epoch_start = naive_datetime_to_utc(datetime.fromtimestamp(0, timezone.utc))\n    since_epoch = dt - epoch_start\n\n    return since_epoch.total_seconds()","    return dt.timestamp()")],'timestamp')
mut(R,[(T,"    since_epoch = dt - epoch_start\n\n    return since_epoch.total_seconds()","    dt = dt.replace(tzinfo=None)\n    epoch_start = epoch_start.replace(tzinfo=None)\n    since_epoch = dt - epoch_start\n\n    return since_epoch.total_seconds()")],'zone dropped')
mut(R,[(T,"    dt = datetime.fromtimestamp(ensure_unix(time), timezone.utc)\n    d = dt","    dt = datetime.fromtimestamp(ensure_unix(time))\n    d = dt")],'local day')
mut(R,[(T,"    dt = datetime.fromtimestamp(ensure_unix(time), timezone.utc)\n    d = dt","    dt = time if isinstance(time, datetime) else datetime.fromtimestamp(ensure_unix(time), timezone.utc)\n    d = dt")],'day in given zone')
mut(R,[(T,"        return datetime_to_unix(time.utc_datetime())","        return datetime_to_unix(time.utc_datetime().astimezone())")],'local from skyfield')
mut(R,[(O,"datetime.now(timezone.utc)","datetime.now()")],'now')
mut(R,[(T,"    since_epoch = dt - epoch_start\n\n    return since_epoch.total_seconds()","    import calendar\n    return calendar.timegm(dt.timetuple())")],'timetuple')
mut(R,[(T,"    since_epoch = dt - epoch_start\n\n    return since_epoch.total_seconds()","    import time as _t\n    return _t.mktime(dt.timetuple())")],'mktime')
mut(R,[(T,"    if dt.tzinfo is not None:\n        dt = dt.astimezone(timezone.utc)\n\n    return dt.str","    return dt.str")],'timestr no conv')
mut(R,[(T,"    if dt.tzinfo is not None:\n        dt = dt.astimezone(timezone.utc)\n\n    return dt.str","    if dt.tzinfo is not None:\n        dt = dt.replace(tzinfo=timezone.utc)\n\n    return dt.str")],'timestr replace')
mut(R,[(T,"    if dt.tzinfo is not None:\n        dt = dt.astimezone(timezone.utc)\n\n    return dt.str","    dt = dt.astimezone(timezone.utc)\n\n    return dt.str")],'timestr astz naive')
mut(R,[(T,'    return datetime.strptime(time_str[:15], "%Y%m%dT%H%M%S")','    return datetime.strptime(time_str[:15], "%Y%m%dT%H%M%S").astimezone(timezone.utc)')],'strptime astz')
mut(R,[(T,'    return datetime.strptime(time_str[:15], "%Y%m%dT%H%M%S")','    import time as _t\n    return datetime.fromtimestamp(_t.mktime(_t.strptime(time_str[:15], "%Y%m%dT%H%M%S")), timezone.utc)')],'strptime mktime')
mut(R,[(T,"    return naive_datetime_to_utc(dt)\n","    return naive_datetime_to_utc(dt.replace(tzinfo=None).astimezone())\n")],'to local')
mut(R,[(T,"        return datetime_to_unix(time)\n","        return np.array([t.timestamp() for t in time])\n")],'ensure stamp')
mut(R,[(T,"    since_epoch = dt - epoch_start\n\n    return since_epoch.total_seconds()","    return _secs(dt)\n\n\ndef _secs(dt):\n    y = dt.timetuple()\n    import calendar\n    return calendar.timegm(y) + dt.microsecond / 1e6")],'helper timetuple')
mut(R,[(C,"        return ensure_unix(val)","        return val.timestamp() if hasattr(val, 'timestamp') else ensure_unix(val)")],'config stamp')
hd('refactors')
mut(R,[(T,"        if dt.tzinfo is None:\n            dt = dt.replace(tzinfo=utc)","        if dt.tzinfo is not None:\n            return dt\n        dt = dt.replace(tzinfo=utc)")],'early return')
mut(R,[(T,"    since_epoch = dt - epoch_start\n\n    return since_epoch.total_seconds()","    return dt.timestamp()")],'timestamp of aware')
mut(R,[(T,"    epoch_start = naive_datetime_to_utc(datetime.fromtimestamp(0, timezone.utc))\n","    epoch_start = datetime(1970, 1, 1, tzinfo=timezone.utc)\n")],'epoch literal')
mut(R,[(T,"    dt = datetime.fromtimestamp(unix_time, timezone.utc)\n\n    return naive_datetime_to_utc(dt)","    return datetime.fromtimestamp(unix_time, tz=timezone.utc)")],'direct')
mut(R,[(T,"    dt = datetime.fromtimestamp(unix_time, timezone.utc)\n\n","    dt = datetime.utcfromtimestamp(unix_time)\n\n")],'utcfrom')
mut(R,[(T,"    if dt.tzinfo is not None:\n        dt = dt.astimezone(timezone.utc)\n\n    return dt.str","    dt = naive_datetime_to_utc(dt).astimezone(timezone.utc)\n\n    return dt.str")],'timestr via helper')
mut(R,[(T,"    dt = datetime.fromtimestamp(ensure_unix(time), timezone.utc)\n    d = dt.replace(hour=0, minute=0, second=0, microsecond=0)\n    return (dt - d).total_seconds()","    dt = unix_to_datetime(ensure_unix(time))\n    return dt.hour * 3600.0 + dt.minute * 60.0 + dt.second + dt.microsecond * 1e-6")],'fields')
mut(R,[(T,"    dt = datetime.fromtimestamp(ensure_unix(time), timezone.utc)\n    d = dt.replace(hour=0, minute=0, second=0, microsecond=0)\n    return (dt - d).total_seconds()","    return _since_midnight(datetime.fromtimestamp(ensure_unix(time), timezone.utc))\n\n\ndef _since_midnight(dt):\n    d = dt.replace(hour=0, minute=0, second=0, microsecond=0)\n    return (dt - d).total_seconds()")],'helper midnight')
mut(R,[(O,"datetime.now(timezone.utc)","datetime.now(tz=timezone.utc)")],'now kw')
mut(R,[(O,"ctime.datetime_to_unix(datetime.now(timezone.utc))","time.time()"),(O,"from datetime import","import time\nfrom datetime import")],'time.time')
mut(R,[(T,"        if dt.tzinfo is None:\n            dt = dt.replace(tzinfo=utc)","        dt = dt.replace(tzinfo=utc) if dt.tzinfo is None else dt")],'ifexp')
mut(R,[(T,"        if dt.tzinfo is None:\n            dt = dt.replace(tzinfo=utc)","        zone = dt.tzinfo\n        if zone is None:\n            dt = dt.replace(tzinfo=utc)")],'local zone var')
done()
