NA = [
    dict(property="P20", reason="pure functions of their arguments: no time, schedule, fault or history for a simulator to control; their use by the estimator (projection of GPS, origin shifts, drift) is decided inside P10, P14 and P18"),
    dict(property="P21", reason="pure function of two arguments: nothing for a simulated schedule or fault to decide; its use (declination of the origin, field seen in flight) is exercised inside P11, P14 and P15 against an independent copy of the tables"),
]
