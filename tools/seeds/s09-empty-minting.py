PROP = "C09"
NEEDS = "a usage rule whose supports_minting is an empty list"
BREAKS = "an empty supports_minting list is taken for missing, the token may mint the default classes"
EDITS = [("session/token.py", '''        if "supports_minting" not in self.usage_rules:
            self.usage_rules["supports_minting"] = [
''', '''        if not self.usage_rules.get("supports_minting"):
            self.usage_rules["supports_minting"] = [
''')]
DEMO = '''
import copy
u = copy.deepcopy(DEF_USAGE)
u["authorization_code"]["supports_minting"] = []
w = World("oidc", usage_rules=u)
w.add_client("one")
r = w.login("one", scope="openid offline_access", prompt="consent")
t = w.redeem("one", r.data["code"])
need("access_token" not in t.data, "code that may mint nothing was served")
'''
