package foundation.icon.score.client;
import java.lang.annotation.*;
@Retention(RetentionPolicy.RUNTIME)
@Target({ElementType.TYPE})
public @interface ScoreInterface { String suffix() default "ScoreInterface"; String addressGetter() default "_address"; }
