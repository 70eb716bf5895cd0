package foundation.icon.score.client;
import java.lang.annotation.*;
@Retention(RetentionPolicy.RUNTIME)
@Target({ElementType.TYPE, ElementType.FIELD})
public @interface ScoreClient { String suffix() default "ScoreClient"; }
