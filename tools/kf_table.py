FINDINGS = []
